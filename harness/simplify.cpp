// C18: every small closed/open line x limits. The result of the real Simplify must be reachable in a nondeterministic
// specification of simplification (states: lines; transitions: one permitted removal, in any order, exact distances), must
// be terminal there (nothing left that has to go), and must stay near the original.
#include "shapes.h"
#include "geometry/ClosedPolyline.h"
#include "geometry/LinesSet.h"
#include "geometry/MixedLinesSet.h"
#include "geometry/OpenPolyline.h"
#include "geometry/Shape.h"
#include "settings/Settings.h"
#include "utils/ExtrusionLine.h"
#include "utils/Simplify.h"

using namespace cura;
using namespace vs;

namespace
{
struct J
{
    P p;
    i64 w;
    bool operator==(const J& o) const
    {
        return p == o.p && w == o.w;
    }
    bool operator<(const J& o) const
    {
        return p == o.p ? w < o.w : p < o.p;
    }
};
using Line = std::vector<J>;
struct Lim
{
    i64 res, dev, area;
};
double len(P a, P b)
{
    return std::hypot((double)(a.x - b.x), (double)(a.y - b.y));
}
double areaDev(const J& a, const J& v, const J& c)
{
    const double ab = len(a.p, v.p), bc = len(v.p, c.p), ac = len(a.p, c.p);
    if (ab < 1 || bc < 1 || ac < 1)
        return 0;
    const i64 wd = std::max(std::llabs(v.w - a.w), std::llabs(c.w - v.w));
    if (wd <= 1)
        return wd * std::min(ab, bc);
    const double wa = (a.w + v.w) / 2., wb = (v.w + c.w) / 2., av = (ab * wa + bc * wb) / ac;
    return std::fabs(wa - av) * ab + std::fabs(wb - av) * bc;
}
// What may happen to vertex i of a line. must: it cannot stay. Tolerances for the rounding of distances to whole microns.
struct Step
{
    bool may_delete = false, must = false;
    bool may_merge = false;
    int merge_at = 0; // vertex replaced by the intersection
    double ix = 0, iy = 0;
    i64 wlo = 0, whi = 0;
};
bool intersect(P a, P b, P c, P d, double& x, double& y)
{
    const double dx = b.x - a.x, dy = b.y - a.y, ex = d.x - c.x, ey = d.y - c.y, den = dx * ey - dy * ex;
    if (den == 0)
        return false;
    const double t = ((c.x - a.x) * ey - (c.y - a.y) * ex) / den;
    x = a.x + t * dx;
    y = a.y + t * dy;
    return true;
}
double distD(double x, double y, P a, P b)
{
    const double l2 = (double)dotp(a, b, b);
    double t = l2 == 0 ? 0 : ((x - a.x) * (b.x - a.x) + (y - a.y) * (b.y - a.y)) / l2;
    t = std::clamp(t, 0., 1.);
    return std::hypot(a.x + t * (b.x - a.x) - x, a.y + t * (b.y - a.y) - y);
}
std::vector<Step> steps(const Line& l, size_t i, bool closed, const Lim& m)
{
    std::vector<Step> out;
    const size_t n = l.size();
    if (! closed && (i == 0 || i == n - 1))
        return out;
    const size_t b = (i + n - 1) % n, a = (i + 1) % n;
    const double ad = areaDev(l[b], l[i], l[a]);
    const double sum = len(l[b].p, l[i].p) + len(l[i].p, l[a].p);
    const double tolA = sum * (2 + 3. * std::max({ l[b].w, l[i].w, l[a].w }) / std::max(1., len(l[b].p, l[a].p) - 1)) + 1; // lengths and widths in whole microns
    if (ad > m.area + tolA)
        return out;
    const bool area_clear = ad < m.area - tolA || (l[b].w == l[i].w && l[i].w == l[a].w);
    const double d = dist(l[i].p, l[b].p, l[a].p);
    const double lb = len(l[b].p, l[i].p), la = len(l[i].p, l[a].p);
    if (d <= 6)
    {
        Step s;
        s.may_delete = true;
        s.must = area_clear && d < 3 && d < m.dev - 1; // nothing beyond the allowed deviation may be asked for
        out.push_back(s);
        if (d < 3)
            return out;
    }
    if (d > m.dev + 1 || std::min(lb, la) > m.res)
        return out;
    if (std::max(lb, la) <= m.res)
    {
        Step s;
        s.may_delete = true;
        s.must = area_clear && d < m.dev - 1;
        out.push_back(s);
        return out;
    }
    // one short edge between long ones: it may be replaced by the intersection of the lines before and after it
    for (int before = 0; before < 2; before++)
    {
        if (lb < la ? ! before : (la < lb ? before : false))
            continue;
        Step s;
        P f0, f1, g0, g1;
        if (before)
        {
            if (! closed && b == 0)
                continue;
            f0 = l[(b + n - 1) % n].p, f1 = l[b].p, g0 = l[i].p, g1 = l[a].p;
            s.merge_at = b;
        }
        else
        {
            if (! closed && a == n - 1)
                continue;
            f0 = l[b].p, f1 = l[i].p, g0 = l[a].p, g1 = l[(a + 1) % n].p;
            s.merge_at = a;
        }
        if (! intersect(f0, f1, g0, g1, s.ix, s.iy))
            continue;
        const double dev = distD(s.ix, s.iy, f1, g0);
        if (dev > m.dev + 2)
            continue;
        s.may_merge = true;
        s.wlo = std::min({ l[b].w, l[i].w, l[a].w });
        s.whi = std::max({ l[b].w, l[i].w, l[a].w });
        s.must = area_clear && d < m.dev - 1 && dev < m.dev - 2 && lb != la;
        out.push_back(s);
    }
    return out;
}
double farthest(const Line& from, const Line& to, bool closed) // of sample points of `from` to the line `to`
{
    double worst = 0;
    const size_t n = from.size(), k = to.size();
    for (size_t i = 0; i < n; i++)
        for (int t = 0; t < 8; t++)
        {
            if (! closed && i + 1 == n && t)
                break;
            const P a = from[i].p, b = from[(i + 1) % n].p;
            const double x = a.x + (b.x - a.x) * t / 8., y = a.y + (b.y - a.y) * t / 8.;
            double best = 1e300;
            for (size_t j = 0; j < k; j++)
                if (closed || j + 1 < k)
                    best = std::min(best, distD(x, y, to[j].p, to[(j + 1) % k].p));
            worst = std::max(worst, best);
        }
    return worst;
}
std::string show(const Line& l)
{
    std::string s;
    for (auto& j : l)
        s += "(" + std::to_string(j.p.x) + "," + std::to_string(j.p.y) + (j.w ? "w" + std::to_string(j.w) : "") + ")";
    return s;
}
bool degenerate(const Line& l, bool closed, double slack)
{
    if (l.size() < (closed ? 3u : 2u))
        return true;
    if (l.size() == (closed ? 3u : 2u))
    {
        double m = 0;
        for (auto& a : l)
            for (auto& b : l)
                m = std::max(m, len(a.p, b.p));
        return m < 5 + slack;
    }
    return false;
}
// Is `res` reachable from `cur`? Positions match up to the rounding of intersections.
struct Reach
{
    const Line& res;
    bool closed;
    const Lim& m;
    std::set<Line> seen;
    uint64_t n = 0;
    bool same(const Line& l) const
    {
        if (l.size() != res.size())
            return false;
        for (size_t i = 0; i < l.size(); i++)
            if (std::llabs(l[i].p.x - res[i].p.x) > 2 || std::llabs(l[i].p.y - res[i].p.y) > 2 || std::llabs(l[i].w - res[i].w) > 0)
                return false;
        return true;
    }
    bool go(const Line& l)
    {
        if (same(l))
            return true;
        if (l.size() <= res.size() || l.size() <= (closed ? 3u : 2u))
            return false;
        if (! seen.insert(l).second)
            return false;
        for (size_t i = 0; i < l.size(); i++)
            for (const Step& s : steps(l, i, closed, m))
            {
                n++;
                if (s.may_delete)
                {
                    Line k = l;
                    k.erase(k.begin() + i);
                    if (go(k))
                        return true;
                }
                if (s.may_merge)
                {
                    const P r{ (i64)std::llround(s.ix), (i64)std::llround(s.iy) };
                    // the result's rounding and width where it has this corner
                    std::set<J> js{ J{ r, (l[(i + l.size() - 1) % l.size()].w + l[(i + 1) % l.size()].w) / 2 } };
                    for (auto& q : res)
                        if (std::fabs(q.p.x - s.ix) <= 2 && std::fabs(q.p.y - s.iy) <= 2 && q.w >= s.wlo && q.w <= s.whi)
                            js.insert(q);
                    for (const J& j : js)
                    {
                        Line k = l;
                        k[s.merge_at] = j;
                        k.erase(k.begin() + i);
                        if (go(k))
                            return true;
                    }
                }
            }
        return false;
    }
};
bool crosses(const Line& l, bool closed)
{
    const size_t n = l.size(), e = closed ? n : n - 1;
    auto sg = [](i128 v) { return v > 0 ? 1 : v < 0 ? -1 : 0; };
    for (size_t i = 0; i < e; i++)
        for (size_t j = i + 2; j < e; j++)
        {
            if (closed && i == 0 && j == n - 1)
                continue;
            const P a = l[i].p, b = l[(i + 1) % n].p, c = l[j].p, d = l[(j + 1) % n].p;
            if (sg(cross(a, b, c)) * sg(cross(a, b, d)) <= 0 && sg(cross(c, d, a)) * sg(cross(c, d, b)) <= 0)
                return true;
        }
    return false;
}
void judge(const Line& in, const Line& res, bool closed, const Lim& m, const char* what)
{
    vh::trans();
    const size_t mn = closed ? 3 : 2;
    uint64_t h = closed;
    for (auto& j : res)
        h = vh::mix(vh::mix(vh::mix(h, j.p.x), j.p.y), j.w);
    vh::state(h);
    if (res.empty())
    {
        // only lines that are, or may become, degenerate
        if (degenerate(in, closed, 0))
        {
            vh::outcome(0);
            return;
        }
        vh::outcome(1);
        // must be able to shrink to a degenerate line
        double diam = 0;
        for (auto& a : in)
            for (auto& b : in)
                diam = std::max(diam, len(a.p, b.p));
        if (closed ? diam > 5 + in.size() * 2. * std::max<i64>(m.dev, 5) + 2 : diam > 5 + in.size() * 2. * std::max<i64>(m.dev, 5) + 2)
            vh::fail("%s: %s vanished (limits %lld %lld %lld)", what, show(in).c_str(), m.res, m.dev, m.area);
        return;
    }
    if (res.size() < mn || res.size() > in.size())
        return vh::fail("%s: %s -> %s: wrong vertex count (limits %lld %lld %lld)", what, show(in).c_str(), show(res).c_str(), m.res, m.dev, m.area);
    if (! closed && ! (res.front() == in.front() && res.back() == in.back()))
        return vh::fail("%s: %s -> %s: an end of the open line moved", what, show(in).c_str(), show(res).c_str());
    if (in.size() == mn)
    {
        if (! (in == res))
            vh::fail("%s: minimal line %s changed to %s", what, show(in).c_str(), show(res).c_str());
        return;
    }
    Reach r{ res, closed, m, {}, 0 };
    if (! r.go(in))
        return vh::fail("%s: %s -> %s is not reachable by permitted removals (resolution %lld, deviation %lld, area %lld)", what, show(in).c_str(), show(res).c_str(), m.res, m.dev, m.area);
    vh::outcome(vh::mix(in.size(), res.size()));
    if (res.size() > mn)
        for (size_t i = 0; i < res.size(); i++)
            for (const Step& s : steps(res, i, closed, m))
                if (s.must)
                    return vh::fail("%s: %s -> %s: vertex %zu should have been removed (resolution %lld, deviation %lld, area %lld)", what, show(in).c_str(), show(res).c_str(), i, m.res, m.dev, m.area);
    if (crosses(in, closed))
        return; // replacing the short edge of a crossed pair of lines cuts off the loop, by up to that edge
    const double lim = (double)(in.size() - res.size()) * std::max<i64>(m.dev, 5) + 3;
    const double f = std::max(farthest(in, res, closed), farthest(res, in, closed));
    if (f > lim)
        vh::fail("%s: %s -> %s: moved by %.1f, more than %.1f", what, show(in).c_str(), show(res).c_str(), f, lim);
}
template<class L>
L build(const Line& l)
{
    L r;
    for (auto& j : l)
        r.push_back(Point2LL(j.p.x, j.p.y));
    return r;
}
template<class L>
Line back(const L& l)
{
    Line r;
    for (const auto& q : l)
        r.push_back({ { q.X, q.Y }, 0 });
    return r;
}
ExtrusionLine buildX(const Line& l, bool closed, size_t inset, bool odd)
{
    ExtrusionLine r(inset, odd);
    r.is_closed_ = closed;
    for (auto& j : l)
        r.emplace_back(Point2LL(j.p.x, j.p.y), j.w, inset);
    return r;
}
Line backX(const ExtrusionLine& l)
{
    Line r;
    for (const auto& j : l)
        r.push_back({ { j.p_.X, j.p_.Y }, j.w_ });
    return r;
}
// a closed line that does not repeat its first point may be treated as the open line of the same vertices
void judgeEither(const Line& in, const Line& res, const Lim& m, const char* what)
{
    const size_t before = vh::g.fails.size();
    const bool stop = vh::g.sh->stop, had = vh::g.case_failed;
    if (had)
        return;
    if (! in.empty() && ! res.empty() && in.front() == res.front() && in.back() == res.back())
    {
        Reach r{ res, false, m, {}, 0 };
        if (r.go(in))
        {
            vh::trans();
            return;
        }
    }
    (void)before;
    (void)stop;
    judge(in, res, true, m, what);
}
void runPlain(const Line& in, const Lim& m)
{
    const Simplify s(m.res, m.dev, m.area);
    judge(in, back(s.polygon(build<Polygon>(in))), true, m, "polygon");
    judge(in, back(s.polyline(build<OpenPolyline>(in))), false, m, "open line");
    if (in.size() >= 3)
    {
        Line closing = in;
        closing.push_back(in.front());
        ClosedPolyline c = build<ClosedPolyline>(closing);
        c.setExplicitlyClosed(true);
        const ClosedPolyline r = s.polyline(c);
        Line l = back(r);
        if (l.size() > 1 && l.front() == l.back() && r.isExplicitlyClosed())
            l.pop_back();
        judge(closing, l, true, m, "explicitly closed line");
    }
    {
        ClosedPolyline i = build<ClosedPolyline>(in);
        i.setExplicitlyClosed(false);
        judgeEither(in, back(s.polyline(i)), m, "closed line");
    }
}
} // namespace

namespace
{
const std::vector<Lim>& limits()
{
    // on lattices of step 12 and 40 (and skewed ones): deviations around 8.5, 12, 16.9, 28, 40; lengths 12..113
    static const std::vector<Lim> v = { { 30, 9, 1 }, { 50, 15, 100 }, { 90, 30, 2000 }, { 14, 13, 1 }, { 1000, 41, 100000 }, { 20, 4, 1 } };
    return v;
}
void lattice(int n, int side, const Embed& e, const std::function<void(const Line&)>& f)
{
    const int k = side * side;
    uint64_t total = 1;
    for (int i = 0; i < n; i++)
        total *= k;
    for (uint64_t c = 0; c < total; c++)
    {
        Line l;
        uint64_t x = c;
        for (int i = 0; i < n; i++, x /= k)
            l.push_back({ e({ (i64)(x % k % side), (i64)(x % k / side) }), 0 });
        f(l);
    }
}
const std::vector<Embed>& embs()
{
    static const std::vector<Embed> v = {
        { 12, 0, 0, 12, 0, 0, "s12" },
        { 40, 0, 0, 9, -20, 30, "wide" },
        { 37, 5, -6, 13, 2000000000, -1500000000, "skewfar" },
        { 3, 0, 0, 45, 0, 0, "tall" },
    };
    return v;
}
void explore()
{
    const bool T = vh::thorough();
    for (size_t ei = 0; ei < embs().size(); ei++)
        for (size_t li = 0; li < limits().size(); li++)
            for (int n = 1; n <= (T ? 6 : 5); n++)
            {
                if (n == 5 && ! T && (ei + li) % 4 == 3)
                    continue;
                if (n == 6 && (ei + li) % 4)
                    continue;
                // split by the first two vertices
                for (int first = 0; first < (n >= 2 ? 81 : 9); first++)
                {
                    if (! vh::begin("lattice %s limits %zu n %d first %d", embs()[ei].name, li, n, first))
                        continue;
                    const int k = 9;
                    uint64_t total = 1;
                    for (int i = 2; i < n; i++)
                        total *= k;
                    for (uint64_t c = 0; c < total && ! vh::g.case_failed; c++)
                    {
                        Line l;
                        uint64_t x = c * (n >= 2 ? 81 : 9) + first;
                        for (int i = 0; i < n; i++, x /= k)
                            l.push_back({ embs()[ei]({ (i64)(x % k % 3), (i64)(x % k / 3) }), 0 });
                        runPlain(l, limits()[li]);
                    }
                }
            }
    // lines of varying width
    const std::vector<Lim> wlim = { { 300, 90, 1 }, { 500, 150, 20000 }, { 900, 300, 100000 }, { 10000, 410, 1000000 }, { 200, 40, 50000 } };
    for (size_t ei = 0; ei < embs().size(); ei++)
        for (size_t li = 0; li < wlim.size(); li++)
            for (int n = 2; n <= (T ? 5 : 4); n++)
                for (int first = 0; first < 81; first++)
                {
                    if (! T && n == 4 && (ei + li) % 2)
                        continue;
                    if (T && n == 5 && (ei + li) % 4)
                        continue;
                    if (! vh::begin("widths %s limits %zu n %d first %d", embs()[ei].name, li, n, first))
                        continue;
                    uint64_t total = 1;
                    for (int i = 2; i < n; i++)
                        total *= 9;
                    for (uint64_t c = 0; c < total && ! vh::g.case_failed; c++)
                        for (int w = 0; w < (1 << n); w++)
                            for (int wide = 0; wide < 3; wide++)
                            {
                                Line l;
                                uint64_t x = c * 81 + first;
                                for (int i = 0; i < n; i++, x /= 9)
                                    l.push_back({ embs()[ei]({ 10 * (i64)(x % 9 % 3), 10 * (i64)(x % 9 / 3) }), 400 + (w >> i & 1) * (wide == 0 ? 1 : wide == 1 ? 40 : 400) });
                                const Lim& m = wlim[li];
                                const Simplify s(m.res, m.dev, m.area);
                                for (int closed = 0; closed < 2; closed++)
                                {
                                    const ExtrusionLine in = buildX(l, closed, w % 3, w & 1);
                                    const ExtrusionLine r = closed ? s.polygon(in) : s.polyline(in);
                                    judge(l, backX(r), closed, m, closed ? "closed extrusion line" : "open extrusion line");
                                    if (r.is_closed_ != closed || r.inset_idx_ != size_t(w % 3) || r.is_odd_ != (w & 1))
                                        vh::fail("extrusion line lost its properties");
                                    for (auto& j : r)
                                        if (j.perimeter_index_ != size_t(w % 3))
                                            vh::fail("junction lost its wall index");
                                }
                            }
                }
    // batches: same as one by one, empty results left out
    for (size_t li = 0; li < limits().size(); li++)
        for (int a = 0; a < 9 * 9 * 9; a++)
        {
            if (! vh::begin("batch limits %zu %d", li, a))
                continue;
            const Lim& m = limits()[li];
            const Simplify s(m.res, m.dev, m.area);
            Line l0, l1;
            for (int i = 0, x = a; i < 3; i++, x /= 9)
                l0.push_back({ embs()[0]({ x % 3, x % 9 / 3 }), 0 });
            for (int b = 0; b < 81; b++)
            {
                l1 = l0;
                l1.push_back({ embs()[0]({ b % 3, b % 9 / 3 }), 0 });
                l1.push_back({ embs()[0]({ b / 9 % 3, b / 27 }), 0 });
                for (int order = 0; order < 2; order++)
                {
                    const Line &x = order ? l1 : l0, &y = order ? l0 : l1;
                    {
                        Shape in;
                        in.push_back(build<Polygon>(x));
                        in.push_back(build<Polygon>(y));
                        const Shape out = s.polygon(in);
                        std::vector<Line> want;
                        for (const Line* q : { &x, &y })
                        {
                            const Line r = back(s.polygon(build<Polygon>(*q)));
                            if (! r.empty())
                                want.push_back(r);
                        }
                        bool ok = out.size() == want.size();
                        for (size_t i = 0; ok && i < want.size(); i++)
                            ok = back(out[i]) == want[i];
                        VH_CHECK(ok, "shape: batch result differs");
                    }
                    {
                        LinesSet<OpenPolyline> in;
                        in.push_back(build<OpenPolyline>(x));
                        in.push_back(build<OpenPolyline>(y));
                        const LinesSet<OpenPolyline> out = s.polyline(in);
                        std::vector<Line> want;
                        for (const Line* q : { &x, &y })
                        {
                            const Line r = back(s.polyline(build<OpenPolyline>(*q)));
                            if (! r.empty())
                                want.push_back(r);
                        }
                        bool ok = out.size() == want.size();
                        for (size_t i = 0; ok && i < want.size(); i++)
                            ok = back(out[i]) == want[i];
                        VH_CHECK(ok, "lines: batch result differs");
                    }
                    {
                        MixedLinesSet in;
                        in.push_back(build<OpenPolyline>(x));
                        in.push_back(build<Polygon>(y));
                        const MixedLinesSet out = s.polyline(in);
                        bool ok = out.size() == 2;
                        if (ok)
                        {
                            auto o = std::dynamic_pointer_cast<OpenPolyline>(out[0]);
                            auto c = std::dynamic_pointer_cast<ClosedPolyline>(out[1]);
                            ok = o && c && back(*o) == back(s.polyline(build<OpenPolyline>(x)));
                            if (ok)
                                judgeEither(y, back(*c), m, "closed line of a mixed set");
                        }
                        VH_CHECK(ok, "mixed set: lines lost or of another kind");
                    }
                    vh::trans(3);
                }
            }
        }
}
} // namespace
int main(int argc, char** argv)
{
    return vh::main_(argc, argv, explore, 4);
}
