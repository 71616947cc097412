// C47: outlines prepared for printing (mended, freed of near crossings, smoothed), thin and wide areas and their merging,
// and concentric contours, on every small image or lattice polygon.
#include "shapes.h"
#include "world.h"
#include "geometry/MendedShape.h"
#include "geometry/Shape.h"
#include "geometry/OpenPolyline.h"
#include "geometry/Polygon.h"
#include "settings/Settings.h"
#include "utils/AABB.h"
#include "utils/actions/smooth.h"
#include "utils/polygonUtils.h"
#include "utils/section_type.h"

using namespace cura;
using namespace vs;

namespace
{
// --- rasters of square sub-cells ---------------------------------------------------------------------------------------------
struct Raster
{
    int w, h;
    std::vector<char> b;
    Raster(int w, int h)
        : w(w)
        , h(h)
        , b(w * h, 0)
    {
    }
    char at(int x, int y) const
    {
        return x < 0 || y < 0 || x >= w || y >= h ? 0 : b[y * w + x];
    }
    Raster line(int r, bool horizontal, bool all) const
    {
        Raster o(w, h);
        for (int y = 0; y < h; y++)
            for (int x = 0; x < w; x++)
            {
                bool any = false, every = true;
                for (int d = -r; d <= r; d++)
                {
                    const char v = horizontal ? at(x + d, y) : at(x, y + d);
                    any |= v;
                    every &= v != 0;
                }
                o.b[y * w + x] = all ? every : any;
            }
        return o;
    }
    Raster grow(int r) const // by a square
    {
        return r > 0 ? line(r, true, false).line(r, false, false) : r < 0 ? line(-r, true, true).line(-r, false, true) : *this;
    }
    Raster open(int r) const
    {
        return grow(-r).grow(r);
    }
    template<class F>
    Raster with(const Raster& o, const F& f) const
    {
        Raster q(w, h);
        for (size_t i = 0; i < b.size(); i++)
            q.b[i] = f(b[i] != 0, o.b[i] != 0);
        return q;
    }
    Raster operator&(const Raster& o) const
    {
        return with(o, [](bool a, bool b) { return a && b; });
    }
    Raster operator|(const Raster& o) const
    {
        return with(o, [](bool a, bool b) { return a || b; });
    }
    Raster operator-(const Raster& o) const
    {
        return with(o, [](bool a, bool b) { return a && ! b; });
    }
    bool any() const
    {
        for (char c : b)
            if (c)
                return true;
        return false;
    }
};
constexpr int K = 4; // sub-cells of a cell along each side
struct Grid
{
    int W, H, margin; // in cells, sub-cells
    const Embed* e;
    Complex c;
    Raster raster(uint64_t mask) const
    {
        Raster r(W * K + 2 * margin, H * K + 2 * margin);
        for (int y = 0; y < H * K; y++)
            for (int x = 0; x < W * K; x++)
                if (mask >> (y / K * W + x / K) & 1)
                    r.b[(y + margin) * r.w + x + margin] = 1;
        return r;
    }
    P at(int x, int y) const // the middle of a sub-cell
    {
        const i64 X = 2 * (x - margin) + 1, Y = 2 * (y - margin) + 1;
        return { (e->a * X + e->b * Y) / (2 * K) + e->tx, (e->c * X + e->d * Y) / (2 * K) + e->ty };
    }
    // "" when the outlines cover just the marked sub-cells
    std::string differs(const Raster& want, const Paths& got) const
    {
        for (int y = 0; y < want.h; y++)
            for (int x = 0; x < want.w; x++)
            {
                const P p = at(x, y);
                if (evenOdd(p, got) != (want.at(x, y) != 0) && ! onBorder(p, got))
                    return "(" + std::to_string(p.x) + "," + std::to_string(p.y) + ") is " + (want.at(x, y) ? "missing from " : "wrongly in ") + str(got);
            }
        return "";
    }
};
std::vector<int> sorted(std::vector<int> v)
{
    std::sort(v.begin(), v.end());
    return v;
}
bool segCross(P a, P b, P c, P d) // properly, inside both
{
    const auto s = [](i128 v) { return v > 0 ? 1 : v < 0 ? -1 : 0; };
    return s(cross(a, b, c)) * s(cross(a, b, d)) < 0 && s(cross(c, d, a)) * s(cross(c, d, b)) < 0;
}
bool segTouch(P a, P b, P c, P d)
{
    return segCross(a, b, c, d) || onSegment(a, c, d) || onSegment(b, c, d) || onSegment(c, a, b) || onSegment(d, a, b);
}
// with both ends of both further than a rounding error from the other
bool clearCross(P a, P b, P c, P d)
{
    const double e = 6;
    return segCross(a, b, c, d) && dist(a, c, d) > e && dist(b, c, d) > e && dist(c, a, b) > e && dist(d, a, b) > e;
}
std::string crossing(const Paths& ps, bool exact = true)
{
    std::vector<std::pair<P, P>> s;
    for (auto& p : ps)
        for (size_t i = 0; i < p.size(); i++)
            s.push_back({ p[i], p[(i + 1) % p.size()] });
    for (size_t i = 0; i < s.size(); i++)
        for (size_t j = i + 1; j < s.size(); j++)
            if ((exact ? segCross : clearCross)(s[i].first, s[i].second, s[j].first, s[j].second))
                return "edges cross in " + str(ps);
    return "";
}
bool simple(const Path& p)
{
    const size_t n = p.size();
    for (size_t i = 0; i < n; i++)
    {
        const P a = p[i], b = p[(i + 1) % n], c = p[(i + 2) % n];
        if (cross(a, b, c) == 0)
            return false;
        for (size_t j = i + 2; j < n; j++)
            if (! (i == 0 && j == n - 1) && segTouch(a, b, p[j], p[(j + 1) % n]))
                return false;
    }
    return true;
}
// all points of a square lattice over (and around) both outline sets: as far from the original's border, the same side
std::string moved(const Paths& before, const Paths& after, double in, double out, i64 step)
{
    i64 x0 = INT64_MAX, y0 = INT64_MAX, x1 = INT64_MIN, y1 = INT64_MIN;
    for (auto* ps : { &before, &after })
        for (auto& p : *ps)
            for (P q : p)
            {
                x0 = std::min(x0, q.x);
                x1 = std::max(x1, q.x);
                y0 = std::min(y0, q.y);
                y1 = std::max(y1, q.y);
            }
    if (x0 > x1)
        return "";
    for (i64 y = y0 - step / 3; y <= y1 + step; y += step)
        for (i64 x = x0 - step / 3; x <= x1 + step; x += step)
        {
            const P p{ x, y };
            const bool a = evenOdd(p, before), b = evenOdd(p, after);
            if (a != b)
            {
                const double d = distBorder(p, before);
                if (d > (a ? in : out))
                    return "(" + std::to_string(x) + "," + std::to_string(y) + "), " + std::to_string(d) + (a ? " inside, is lost in " : " outside, is covered by ") + str(after);
            }
        }
    return "";
}
bool same(const Shape& a, const Paths& b)
{
    return fromShape(a) == b;
}

void thin(const Grid& g, uint64_t mask, const Shape& s, i64 sub)
{
    const Raster r = g.raster(mask);
    for (int w : { 1, 2, 3, 4, 6 }) // half widths in sub-cells
    {
        const coord_t width = 2 * w * sub;
        const Raster wide = r & r.open(w);
        const Paths t = fromShape(PolygonUtils::getThinAreas(s, width)), d = fromShape(PolygonUtils::getWideAreas(s, width));
        vh::trans(2);
        if (auto x = g.differs(r - wide, t); ! x.empty())
            vh::fail("thin areas of width %lld: %s", (long long)width, x.c_str());
        if (auto x = g.differs(wide, d); ! x.empty())
            vh::fail("wide areas of width %lld: %s", (long long)width, x.c_str());
        vh::state(vh::mix(hashPaths(t), hashPaths(d)));
    }
}
void contours(const Grid& g, uint64_t mask, const Shape& s, i64 sub)
{
    const Raster r = g.raster(mask);
    for (int lw : { 2, 4 }) // sub-cells
        for (int width : { -9, -8, -7, -4, -1, 0, 1, 3, 4, 5, 8, 11 })
        {
            const auto o = PolygonUtils::generateInsetOutset(s, width * sub, lw * sub);
            vh::trans();
            std::vector<Raster> want;
            const int dir = width > 0 ? 1 : -1;
            for (int d = lw / 2; d + lw / 2 <= width * dir; d += lw)
            {
                want.push_back(r.grow(d * dir));
                if (! want.back().any())
                    break;
            }
            while (! want.empty() && ! want.back().any())
                want.pop_back();
            size_t n = o.walls.size();
            while (n && o.walls[n - 1].empty())
                n--;
            if (n != want.size())
                vh::fail("%zu, not %zu contours of width %lld within %lld", n, want.size(), (long long)(lw * sub), (long long)(width * sub));
            for (size_t i = 0; i < n; i++)
                if (auto x = g.differs(want[i], fromShape(o.walls[i])); ! x.empty())
                    vh::fail("contour %zu of width %lld within %lld: %s", i, (long long)(lw * sub), (long long)(width * sub), x.c_str());
            if (! o.walls.empty() && o.final_contour_offset != dir * (coord_t)(o.walls.size() * lw * sub) || o.walls.empty() && o.final_contour_offset != 0)
                vh::fail("%zu contours of width %lld end at %lld", o.walls.size(), (long long)(lw * sub), (long long)o.final_contour_offset);
            vh::outcome(vh::mix(n, vh::mix(lw, width)));
        }
}
void merges(const Grid& g, uint64_t source, uint64_t dest, const Shape& s, const Shape& d, i64 sub)
{
    const Raster rs = g.raster(source), rd = g.raster(dest);
    for (int w : { 2, 3, 4, 8 }) // distance in sub-cells
        for (bool grow : { false, true })
        {
            if (w % 2) // half of it isn't a number of sub-cells
                continue;
            Shape a = s, b = d;
            PolygonUtils::mergeThinOverlap(w * sub, a, b, grow);
            vh::trans();
            const Raster t = rd - rd.open(w / 2);
            const Raster from = grow ? rs : rs & rs.open(w / 2);
            const Raster taken = from.grow(w) & t;
            const char* how = grow ? "thin areas may grow" : "thin areas may not grow";
            if (auto x = g.differs(rs | taken, fromShape(a)); ! x.empty())
                vh::fail("merged within %lld, %s, the area: %s", (long long)(w * sub), how, x.c_str());
            if (auto x = g.differs(rd - taken, fromShape(b)); ! x.empty())
                vh::fail("merged within %lld, %s, the rest: %s", (long long)(w * sub), how, x.c_str());
            vh::state(vh::mix(hashPaths(fromShape(a)), hashPaths(fromShape(b))));
            vh::outcome(vh::mix(taken.any(), (t.any() ? 2 : 0) + w * 4));
        }
}
struct Mending
{
    const char* name;
    bool gaps, fluid;
    i64 feature, line, deviation;
};
void mend(const Paths& ps, const Mending& m, Settings& s, bool wide, i64 step, SectionType type)
{
    const Shape in = toShape(ps);
    const MendedShape mended(&s, type, &in);
    const Paths out = fromShape(mended.getShape());
    vh::trans();
    if (! same(in, ps))
        vh::fail("mending changed its input");
    const double oc = m.gaps ? m.feature / 2 - 5 : m.line / 2 - 5;
    const double fluid = m.fluid && type != SectionType::SUPPORT ? 110 : 0;
    const double slack = 2 * m.deviation + 40 + fluid;
    if (auto x = crossing(out); ! x.empty())
        vh::fail("%s: %s", m.name, x.c_str());
    if (auto x = moved(ps, out, (wide ? 0 : oc) + slack, (wide ? 0 : 1.5 * oc) + slack, step); ! x.empty())
        vh::fail("%s, mended: %s", m.name, x.c_str());
    if (! same(mended.getShape(), out))
        vh::fail("%s: mending twice differs", m.name);
    if (m.fluid && type == SectionType::SUPPORT)
    {
        Settings off = s;
        off.add("meshfix_fluid_motion_enabled", "false");
        const MendedShape plain(&off, SectionType::WALL, &in);
        if (fromShape(plain.getShape()) != out)
            vh::fail("%s: the outline of support is smoothed for fluid motion", m.name);
    }
    vh::state(hashPaths(out));
    vh::outcome(vh::mix(out.size(), ps.size()));
}
// parts and gaps one cell wide go or stay; parts of one cell alone are too small
void features(int W, int H, uint64_t mask, const Embed& e, const Complex& c, Settings& s, bool thick)
{
    constexpr int M = 3;
    Raster r(W + 2 * M, H + 2 * M);
    for (int i = 0; i < W * H; i++)
        if (mask >> i & 1)
            r.b[(i / W + M) * r.w + i % W + M] = 1;
    const auto squares = [](const Raster& r) // what 2x2 squares cover
    {
        Raster o(r.w, r.h);
        for (int y = 0; y + 1 < r.h; y++)
            for (int x = 0; x + 1 < r.w; x++)
                if (r.at(x, y) && r.at(x + 1, y) && r.at(x, y + 1) && r.at(x + 1, y + 1))
                    o.b[y * r.w + x] = o.b[y * r.w + x + 1] = o.b[(y + 1) * r.w + x] = o.b[(y + 1) * r.w + x + 1] = 1;
        return o;
    };
    Raster want = r;
    if (! thick)
    {
        Raster full(r.w, r.h);
        full.b.assign(full.b.size(), 1);
        want = squares(r);
        want = full - squares(full - want);
        for (int y = 0; y < r.h; y++) // the outside is infinite
            for (int x = 0; x < r.w; x++)
                if (x < M || y < M || x >= W + M || y >= H + M)
                    want.b[y * r.w + x] = 0;
    }
    else
        for (int y = 0; y < r.h; y++)
            for (int x = 0; x < r.w; x++)
                if (r.at(x, y) && ! r.at(x - 1, y) && ! r.at(x + 1, y) && ! r.at(x, y - 1) && ! r.at(x, y + 1))
                    want.b[y * r.w + x] = 0;
    const Shape in = toShape(trace(c, mask, e));
    const MendedShape mended(&s, SectionType::WALL, &in);
    const Paths out = fromShape(mended.getShape());
    vh::trans();
    for (int i = 0; i < W * H; i++)
    {
        const bool w = want.at(i % W + M, i / W + M);
        if (evenOdd(center(c, i, e), out) != w)
            vh::fail("cell %d should be %s, mended: %s", i, w ? "kept" : "empty", str(out).c_str());
    }
    vh::state(hashPaths(out));
}
void untangle(const Paths& ps, i64 step, coord_t most_eps)
{
    const Shape in = toShape(ps);
    {
        const Paths out = fromShape(in.removeNearSelfIntersections());
        if (auto x = crossing(out, false); ! x.empty())
            vh::fail("freed of near crossings: %s", x.c_str());
        if (auto x = moved(ps, out, 9, 9, step); ! x.empty())
            vh::fail("freed of near crossings: %s", x.c_str());
        vh::state(hashPaths(out));
    }
    for (coord_t eps : { 0, 11, 24, 60 })
    {
        if (eps > most_eps)
            continue;
        Shape s = in;
        PolygonUtils::fixSelfIntersections(eps, s);
        const Paths out = fromShape(s);
        if (auto x = crossing(out, false); ! x.empty())
            vh::fail("crossings within %lld fixed: %s", (long long)eps, x.c_str());
        const double most = eps < 1 ? 2 : 4 * std::max<coord_t>(10, (eps + 1) / 2) + 3;
        if (auto x = moved(ps, out, most, most, step); ! x.empty())
            vh::fail("crossings within %lld fixed: %s", (long long)eps, x.c_str());
        vh::state(hashPaths(out));
    }
    vh::trans(5);
}
void outward(const Path& p, i64 unit)
{
    Shape in;
    in.push_back(toPolygon(p));
    for (int length : { 10, (int)unit + 1, (int)(unit * 1.5), (int)(unit * 2.3) })
    {
        const Paths out = fromShape(in.smooth(length));
        vh::trans();
        if (out.empty())
        {
            vh::fail("smoothing zigzags of %d removes the polygon", length);
            continue;
        }
        if (out.size() != 1)
            vh::fail("smoothing gives %zu outlines", out.size());
        // the vertices left are the original's in the original order
        size_t k = 0;
        for (size_t i = 0; i < p.size(); i++)
        {
            if (k < out[0].size() && out[0][k] == p[i])
            {
                k++;
                continue;
            }
            const size_t n = p.size();
            const P a = p[(i + n - 1) % n], b = p[i], c = p[(i + 1) % n], d = p[(i + 2) % n];
            const double l = std::sqrt((double)dotp(b, c, c));
            if (l >= length + 1)
                vh::fail("smoothing zigzags of %d removes (%lld,%lld), the begin of a piece of length %g", length, b.x, b.y, l);
            if (! (cross(a, b, c) < 0 && cross(b, c, d) > 0))
                vh::fail("smoothing zigzags of %d removes (%lld,%lld), where no zigzag turns outward", length, b.x, b.y);
        }
        if (k != out[0].size())
            vh::fail("smoothing zigzags of %d gives other vertices: %s", length, str(out).c_str());
        // what sticks out stays: the result covers the original
        if (area2(out) < area2(p))
            vh::fail("smoothing zigzags of %d takes area away: %s", length, str(out).c_str());
        // clear zigzags go
        for (size_t i = 1; i + 3 < p.size() && length < unit * 2.2; i++)
        {
            const P a = p[i - 1], b = p[i], c = p[i + 1], d = p[i + 2];
            const double l = std::sqrt((double)dotp(b, c, c)), la = std::sqrt((double)dotp(b, a, a)), ld = std::sqrt((double)dotp(c, d, d));
            const bool square = dotp(b, a, c) == 0 && dotp(c, b, d) == 0;
            if (square && l <= length - 1 && la >= l && ld >= l && cross(a, b, c) < 0 && cross(b, c, d) > 0)
            {
                bool there = false, before = false;
                for (P q : out[0])
                {
                    there |= q == b;
                    before |= q == a;
                }
                if (there && before)
                    vh::fail("smoothing zigzags of %d keeps the zigzag at (%lld,%lld)", length, b.x, b.y);
            }
        }
        vh::state(hashPaths(out));
    }
}
void fluid(const Path& p)
{
    const Polygon in = toPolygon(p);
    for (coord_t shift : { 15, 100 })
        for (coord_t small : { 30, 110, 260 })
            for (double angle : { 0.1, 0.6, 1.2 })
            {
                if (small > 3 * shift) // pieces both short and long: vertices move more than once
                    continue;
                auto pts = in.getPoints();
                auto out = actions::smooth(shift, small, angle)(pts);
                vh::trans();
                if (out.size() != p.size())
                {
                    vh::fail("fluid motion turns %zu vertices into %zu", p.size(), out.size());
                    continue;
                }
                const size_t n = p.size();
                for (size_t i = 0; i < n; i++)
                {
                    const P a = p[(i + n - 1) % n], b = p[i], c = p[(i + 1) % n], q{ out[i].X, out[i].Y };
                    const double before = std::sqrt((double)dotp(b, a, a)), after = std::sqrt((double)dotp(b, c, c));
                    const double d = std::sqrt((double)dotp(b, q, q));
                    if (before > small + 4 * shift + 2 && after > small + 4 * shift + 2 && d > 0)
                        vh::fail("fluid motion (shift %lld, small %lld) moves (%lld,%lld) between long pieces", (long long)shift, (long long)small, b.x, b.y);
                    if (d > 2 * shift + 3)
                        vh::fail("fluid motion (shift %lld, small %lld) moves (%lld,%lld) by %g", (long long)shift, (long long)small, b.x, b.y, d);
                }
                vh::outcome(hashPaths({ fromLine(out) }));
            }
}
void many(const Grid& g, uint64_t mask, int copies, i64 u)
{
    Shape s;
    for (int k = 0; k < copies; k++)
        for (int i = 0; i < g.W * g.H; i++)
            if (mask >> i & 1)
                for (auto& p : trace(g.c, 1ull << i, *g.e))
                    s.push_back(toPolygon(p));
    const Paths in = fromShape(s);
    const Paths out = fromShape(PolygonUtils::unionManySmall(s));
    vh::trans();
    if (auto x = g.differs(g.raster(mask), out); ! x.empty())
        vh::fail("union of %zu: %s", in.size(), x.c_str());
    i128 want = 0;
    for (int i = 0; i < g.W * g.H; i++)
        if (mask >> i & 1)
            want += 2 * (i128)u * u;
    if (area2(out) != want)
        vh::fail("union of %zu covers %s instead of %s", in.size(), s128(area2(out)).c_str(), s128(want).c_str());
    vh::state(hashPaths(out));
}
void latticePolygons(int w, int h, int most, const std::function<void(const Path&)>& f, uint64_t part = 1)
{
    std::vector<int> sel;
    uint64_t n = 0;
    std::function<void()> rec = [&]()
    {
        if (sel.size() >= 3)
        {
            Path p;
            for (int i : sel)
                p.push_back({ i % w, i / w });
            if (area2(p) > 0 && simple(p) && n++ % part == 0)
                f(p);
        }
        if ((int)sel.size() == most)
            return;
        for (int i = sel[0] + 1; i < w * h; i++)
            if (std::find(sel.begin(), sel.end(), i) == sel.end())
            {
                sel.push_back(i);
                rec();
                sel.pop_back();
            }
    };
    for (int i = 0; i < w * h; i++)
    {
        sel = { i };
        rec();
    }
}
std::string str(const Path& p)
{
    std::string s;
    for (P q : p)
        s += std::string(1, (char)('0' + q.x)) + (char)('0' + q.y) + " ";
    return s;
}
void explore()
{
    const bool th = vh::thorough();
    // thin areas, contours
    const i64 u = 480, sub = u / K;
    const Embed square[] = { { u, 0, 0, u, 0, 0, "id" }, { 0, -u, u, 0, 7 * u + 3, -11 * u - 5, "rot90" }, { -u, 0, 0, u, -100003, 50021, "mirror" } };
    for (auto [W, H] : { std::pair{ 3, 3 }, std::pair{ 4, 3 }, std::pair{ 5, 2 } })
        for (int e = 0; e < (th ? 3 : W == 3 ? 3 : 1); e++)
            for (uint64_t m = 1; m < 1ull << (W * H); m++)
                for (int v : { 0, 1 })
                {
                    if (! th && W == 4 && m % 2 == (uint64_t)v || v && unambiguous(W, H, m))
                        continue;
                    if (! vh::begin("thin areas and contours of image %dx%d %llx %s variant %d", W, H, (unsigned long long)m, square[e].name, v))
                        continue;
                    Grid g{ W, H, 14, &square[e], quads(W, H) };
                    const Shape s = toShape(trace(g.c, m, square[e], v));
                    thin(g, m, s, sub);
                    contours(g, m, s, sub);
                    if (v == 0)
                    {
                        many(g, m, 1, u);
                        many(g, m, 3, u);
                    }
                }
    // merging thin parts of one area into another
    for (auto [W, H] : { std::pair{ 3, 3 }, std::pair{ 4, 2 }, std::pair{ 4, 3 } })
    {
        uint64_t n = 0;
        for (uint64_t a = 1; a < 1ull << (W * H); a++)
            for (uint64_t b = 1; b < 1ull << (W * H); b++)
                if (! (a & b))
                {
                    n++;
                    if (W * H == 12 && n % (th ? 3 : 40) || ! th && W == 3 && n % 2)
                        continue;
                    if (! vh::begin("merging thin parts of %dx%d %llx into %llx", W, H, (unsigned long long)b, (unsigned long long)a))
                        continue;
                    const Embed& e = square[n / 40 % 3];
                    Grid g{ W, H, 10, &e, quads(W, H) };
                    merges(g, a, b, toShape(trace(g.c, a, e)), toShape(trace(g.c, b, e)), sub);
                }
    }
    // mended outlines
    world::fresh();
    Settings base;
    for (auto& [k, v] : world::defaults())
        base.add(k, v);
    const Mending mendings[] = { { "features from 0.1 mm", true, false, 100, 340, 25 }, { "lines from 0.34 mm", false, false, 100, 340, 25 }, { "fluid motion", true, true, 200, 340, 50 }, { "coarse", false, true, 100, 500, 100 } };
    for (const Mending& m : mendings)
    {
        Settings s = base;
        s.add("fill_outline_gaps", m.gaps ? "true" : "false");
        s.add("min_feature_size", std::to_string(m.feature / 1000.0));
        s.add("min_wall_line_width", std::to_string(m.line / 1000.0));
        s.add("meshfix_maximum_deviation", std::to_string(m.deviation / 1000.0));
        s.add("meshfix_maximum_resolution", "0.25");
        s.add("meshfix_maximum_extrusion_area_deviation", "50000");
        s.add("meshfix_fluid_motion_enabled", m.fluid ? "true" : "false");
        s.add("meshfix_fluid_motion_shift_distance", "0.1");
        s.add("meshfix_fluid_motion_small_distance", "0.01");
        s.add("meshfix_fluid_motion_angle", "15");
        s.add("wall_line_width_0", "0.4");
        for (i64 unit : { 108, 600, 1560 })
            for (auto [W, H, tri] : { std::tuple{ 3, 3, false }, std::tuple{ 2, 2, true } })
                for (int e : { 0, 3, 4, 5 })
                {
                    const auto es = embeds(unit);
                    const Complex c = tri ? tris2(W, H) : quads(W, H);
                    for (uint64_t mask = 1; mask < 1ull << c.cells.size(); mask++)
                    {
                        if (c.cells.size() > 9 && (mask % (th ? 11 : 331)))
                            continue;
                        if (! th && c.cells.size() <= 9 && mask % 2)
                            continue;
                        if (! vh::begin("mending, %s: image %s %llx of unit %lld %s", m.name, tri ? "of triangles" : "of squares", (unsigned long long)mask, unit, es[e].name))
                            continue;
                        const bool wide = ! tri && unit >= 1560 && e <= 3;
                        mend(trace(c, mask, es[e], mask % 7 & 1), m, s, wide, std::max<i64>(unit / 5, 60) | 1, mask % 3 ? SectionType::WALL : SectionType::SUPPORT);
                    }
                }
    }
    // features of one cell, smaller or larger than what is printed
    for (bool gaps : { false, true })
        for (i64 unit : { 600, 1000 })
            for (int e : { 0, 1, 3, 6 })
                for (auto [W, H] : { std::pair{ 3, 3 }, std::pair{ 5, 2 }, std::pair{ 4, 3 } })
                {
                    Settings s = base;
                    s.add("fill_outline_gaps", gaps ? "true" : "false");
                    s.add("min_feature_size", gaps ? "0.8" : "0.1");
                    s.add("min_wall_line_width", gaps ? "0.1" : "0.8");
                    s.add("meshfix_maximum_deviation", "0.02");
                    s.add("meshfix_maximum_resolution", "0.1");
                    s.add("meshfix_fluid_motion_enabled", "false");
                    s.add("wall_line_width_0", "2.2");
                    const auto es = embeds(unit);
                    const Complex c = quads(W, H);
                    for (uint64_t mask = 1; mask < 1ull << (W * H); mask++)
                        if (unambiguous(W, H, mask) && (th || W < 4 || mask % 4 == 0) && vh::begin("features, %s: image %dx%d %llx of unit %lld %s", gaps ? "filling gaps" : "not filling gaps", W, H, (unsigned long long)mask, unit, es[e].name))
                            features(W, H, mask, es[e], c, s, unit == 1000);
                }
    // near crossings
    for (i64 unit : { 12, 48, 300 })
        for (int e : { 0, 4, 5, 6 })
            for (bool tri : { false, true })
            {
                const auto es = embeds(unit);
                const Complex c = tri ? tris(2, 2) : quads(3, 3);
                for (uint64_t mask = 1; mask < 1ull << c.cells.size(); mask++)
                    for (int v : { 0, 1 })
                        if ((! tri || mask % (th ? 5 : 29) == 0) && vh::begin("near crossings: image %s %llx of unit %lld %s variant %d", tri ? "of triangles" : "of squares", (unsigned long long)mask, unit, es[e].name, v))
                            untangle(trace(c, mask, es[e], v), std::max<i64>(unit / 4, 5) | 1, unit / 2);
            }
    // with a column or row that is thin
    for (i64 gap : { 3, 8, 14, 40 })
        for (int way = 0; way < 6; way++)
            for (bool tri : { false, true })
            {
                const Complex c = tri ? tris(2, 2) : quads(3, 3);
                for (uint64_t mask = 1; mask < 1ull << c.cells.size(); mask++)
                {
                    if (tri && mask % (th ? 5 : 47))
                        continue;
                    if (! vh::begin("near crossings: image %s %llx with a gap of %lld, %d", tri ? "of triangles" : "of squares", (unsigned long long)mask, gap, way))
                        continue;
                    Paths ps = trace(c, mask, embeds(12)[0], mask & 1);
                    for (auto& p : ps)
                        for (P& q : p)
                        {
                            const auto squeeze = [&](i64 v, int at) // the at-th cell gets as thin as the gap
                            {
                                const i64 i = v / 12;
                                return i * 300 - (i > at ? 300 - gap : 0);
                            };
                            const P o = q;
                            q = { squeeze(o.x, way % 3), squeeze(o.y, way >= 3 ? way % 3 : 9) };
                            if (way == 4)
                                q = { q.x - q.y / 3, q.y + q.x / 2 };
                        }
                    untangle(ps, 37, 60);
                }
            }
    // zigzags, fluid motion
    for (i64 unit : { 40, 120 })
        for (auto [w, h, most] : { std::tuple{ 3, 3, 7 }, std::tuple{ 4, 3, 5 }, std::tuple{ 4, 4, 4 } })
            latticePolygons(
                w,
                h,
                most + th,
                [&](const Path& p)
                {
                    for (size_t r = 0; r < p.size(); r++) // each start
                    {
                        if (! vh::begin("zigzags of %sunit %lld start %zu", str(p).c_str(), unit, r))
                            continue;
                        Path q;
                        for (size_t i = 0; i < p.size(); i++)
                            q.push_back({ p[(i + r) % p.size()].x * unit, p[(i + r) % p.size()].y * unit });
                        if (q.size() > 3)
                            outward(q, unit);
                        fluid(q);
                    }
                });
}
} // namespace
int main(int argc, char** argv)
{
    return vh::main_(argc, argv, explore, 16);
}
