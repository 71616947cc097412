// Infill patterns over images of cells (C25). The scan lines of linear patterns are computed independently; gyroid and the regular
// polygons are compared with the same pattern over a huge square, which is itself judged for density, period and reach.
#include "infill.h"
#include "infill/SierpinskiFillProvider.h"
#include "infill/SubDivCube.h"
#include "sliceDataStorage.h"
#include "settings/types/Angle.h"
#include "shapes.h"
#include "utils/AABB3D.h"
#include "utils/ExtrusionLine.h"
#include "vh.h"
#include "world.h"
#include <map>
#include <numbers>
#include <unordered_map>

using namespace cura;
using namespace vs;

struct S
{
    double ax, ay, bx, by;
    double len() const
    {
        return std::hypot(bx - ax, by - ay);
    }
};
static double distSeg(double x, double y, const S& s)
{
    const double dx = s.bx - s.ax, dy = s.by - s.ay, l2 = dx * dx + dy * dy;
    const double t = l2 == 0 ? 0 : std::clamp(((x - s.ax) * dx + (y - s.ay) * dy) / l2, 0.0, 1.0);
    return std::hypot(s.ax + t * dx - x, s.ay + t * dy - y);
}
// segments with a hash of the squares they touch
struct Segs
{
    static constexpr double CELL = 800;
    std::vector<S> v;
    std::unordered_map<i64, std::vector<int>> g;
    static i64 key(i64 x, i64 y)
    {
        return x * 2000003 + y;
    }
    void add(double ax, double ay, double bx, double by)
    {
        const int id = (int)v.size();
        v.push_back({ ax, ay, bx, by });
        const S& s = v.back();
        const int n = (int)(s.len() / (CELL / 4)) + 1;
        i64 px = LLONG_MAX, py = 0;
        for (int i = 0; i <= n; i++)
        {
            const i64 x = (i64)std::floor((ax + (bx - ax) * i / n) / CELL), y = (i64)std::floor((ay + (by - ay) * i / n) / CELL);
            if (x == px && y == py)
                continue;
            px = x;
            py = y;
            auto& c = g[key(x, y)];
            if (c.empty() || c.back() != id)
                c.push_back(id);
        }
    }
    // is some segment within r (r below CELL / 2)
    bool near(double x, double y, double r, int except = -1) const
    {
        const i64 a = (i64)std::floor((x - r) / CELL - 0.26), b = (i64)std::floor((x + r) / CELL + 0.26), c = (i64)std::floor((y - r) / CELL - 0.26), d = (i64)std::floor((y + r) / CELL + 0.26);
        for (i64 i = a; i <= b; i++)
            for (i64 j = c; j <= d; j++)
            {
                auto it = g.find(key(i, j));
                if (it != g.end())
                    for (int k : it->second)
                        if (k != except && distSeg(x, y, v[k]) <= r)
                            return true;
            }
        return false;
    }
    double length() const
    {
        double l = 0;
        for (auto& s : v)
            l += s.len();
        return l;
    }
};
struct Out
{
    std::vector<VariableWidthLines> paths;
    Shape polys;
    OpenLinesSet lines;
    Segs segs() const
    {
        Segs r;
        for (auto& l : lines)
            for (size_t i = 0; i + 1 < l.size(); i++)
                r.add(l[i].X, l[i].Y, l[i + 1].X, l[i + 1].Y);
        for (auto& l : polys)
            for (size_t i = 0; i < l.size(); i++)
                r.add(l[i].X, l[i].Y, l[(i + 1) % l.size()].X, l[(i + 1) % l.size()].Y);
        return r;
    }
    uint64_t hash() const
    {
        uint64_t h = 7;
        auto pts = [&](auto& l)
        {
            h = vh::mix(h, l.size());
            for (auto& p : l)
                h = vh::mix(vh::mix(h, (uint64_t)p.X), (uint64_t)p.Y);
        };
        for (auto& l : lines)
            pts(l);
        h = vh::mix(h, 99);
        for (auto& l : polys)
            pts(l);
        for (auto& v : paths)
            for (auto& e : v)
            {
                h = vh::mix(h, e.inset_idx_ * 2 + e.is_closed_);
                for (auto& j : e)
                    h = vh::mix(vh::mix(vh::mix(h, (uint64_t)j.p_.X), (uint64_t)j.p_.Y), (uint64_t)j.w_);
            }
        return h;
    }
};
struct Opt
{
    EFillMethod pattern = EFillMethod::LINES;
    bool zig = false, connect = false;
    coord_t lw = 400, d = 1500, overlap = 0;
    size_t mult = 1;
    double angle = 0;
    coord_t z = 0, shift = 0;
    size_t walls = 0;
    Point2LL origin{ 0, 0 };
    bool skipStitch = false, connected = false, endpieces = false, skip = false;
    size_t zags = 0;
    coord_t pocket = 0;
    coord_t small = 0;
    const char* name = "";
};
static const Settings* settings;
static Out run(const Shape& outline, const Opt& o, const std::shared_ptr<SierpinskiFillProvider>& cross = nullptr, const SliceMeshStorage* mesh = nullptr)
{
    Infill f(
        o.pattern, o.zig, o.connect, outline, o.lw, o.d, o.overlap, o.mult, AngleDegrees(o.angle), o.z, o.shift, 5, 3, std::variant<size_t, coord_t>(o.walls), o.small, o.origin,
        o.skipStitch, true, o.connected, o.endpieces, o.skip, o.zags, o.pocket);
    Out r;
    f.generate(r.paths, r.polys, r.lines, *settings, 3, SectionType::INFILL, cross, nullptr, mesh);
    return r;
}
static bool inside(double x, double y, const Paths& ps)
{
    bool r = false;
    for (auto& p : ps)
        for (size_t i = 0; i < p.size(); i++)
        {
            const P &a = p[i], &b = p[(i + 1) % p.size()];
            if ((a.y > y) != (b.y > y) && x < a.x + (y - a.y) * (double)(b.x - a.x) / (double)(b.y - a.y))
                r = ! r;
        }
    return r;
}
static double border(double x, double y, const Paths& ps)
{
    double d = 1e18;
    for (auto& p : ps)
        for (size_t i = 0; i < p.size(); i++)
            d = std::min(d, distSeg(x, y, { (double)p[i].x, (double)p[i].y, (double)p[(i + 1) % p.size()].x, (double)p[(i + 1) % p.size()].y }));
    return d;
}
// stitch: how long a stretch may be outside (ends closer than that are joined), being no farther out than half of it
static bool within(const Segs& got, const Paths& area, double tol, const char* what, double stitch = 0)
{
    for (auto& s : got.v)
    {
        const int n = (int)(s.len() / 150) + 1;
        for (int i = 0; i <= n; i++)
        {
            const double x = s.ax + (s.bx - s.ax) * i / n, y = s.ay + (s.by - s.ay) * i / n;
            if (inside(x, y, area) || border(x, y, area) <= tol)
                continue;
            const double far = border(x, y, area);
            if (far <= stitch / 2)
            {
                double run = 0;
                const double l = s.len(), at = l * i / n;
                for (int dir : { -1, 1 })
                    for (double t = at; t >= 0 && t <= l && run <= stitch; t += 20 * dir, run += 20)
                    {
                        const double u = s.ax + (s.bx - s.ax) * t / l, v = s.ay + (s.by - s.ay) * t / l;
                        if (inside(u, v, area) || border(u, v, area) <= tol)
                            break;
                    }
                if (run <= stitch)
                    continue;
            }
            vh::fail("%s: (%.0f, %.0f) of (%.0f,%.0f)-(%.0f,%.0f) is printed %.0f outside the area", what, x, y, s.ax, s.ay, s.bx, s.by, far);
            return false;
        }
    }
    return true;
}
struct Fam
{
    double angle, period, shift;
};
static std::vector<Fam> families(const Opt& o)
{
    std::vector<Fam> f;
    const double d = (double)o.d, a = o.angle;
    auto half = [&](double zs, double add)
    {
        const i64 period = o.d * 2;
        i64 s = (i64)((o.z + zs * period * 2) / std::numbers::sqrt2) % period;
        s = std::min(s, period - s);
        s = std::min(s, period / 2 - o.lw / 2);
        s = std::max(s, o.lw / 2);
        f.push_back({ a + add, (double)period, (double)s });
        f.push_back({ a + add, (double)period, (double)-s });
    };
    switch (o.pattern)
    {
    case EFillMethod::LINES:
    case EFillMethod::ZIG_ZAG:
        f = { { a, d, 0 } };
        break;
    case EFillMethod::GRID:
        f = { { a, d, 0 }, { a + 90, d, 0 } };
        break;
    case EFillMethod::TRIANGLES:
        f = { { a, d, 0 }, { a + 60, d, 0 }, { a + 120, d, 0 } };
        break;
    case EFillMethod::TRIHEXAGON:
        f = { { a, d, 0 }, { a + 60, d, 0 }, { a + 120, d, (double)(o.d / 2) } };
        break;
    case EFillMethod::CUBIC:
    {
        const double s = o.z / std::numbers::sqrt2;
        f = { { a, d, s }, { a + 120, d, s }, { a + 240, d, s } };
        break;
    }
    case EFillMethod::TETRAHEDRAL:
        half(0, 0);
        half(0, 90);
        break;
    case EFillMethod::QUARTER_CUBIC:
        half(0, 0);
        half(0.5, 90);
        break;
    default:
        break;
    }
    for (auto& x : f)
    {
        const double r = x.angle * std::numbers::pi / 180;
        x.shift += o.shift + o.origin.X * std::cos(r) - o.origin.Y * std::sin(r);
    }
    return f;
}
struct Interval
{
    int fam;
    i64 k;
    double x, y0, y1; // in the turned frame
};
static void turn(double a, double x, double y, double& u, double& v)
{
    const double r = a * std::numbers::pi / 180, c = std::cos(r), s = std::sin(r);
    u = x * c - y * s;
    v = x * s + y * c;
}
static void unturn(double a, double u, double v, double& x, double& y)
{
    const double r = a * std::numbers::pi / 180, c = std::cos(r), s = std::sin(r);
    x = u * c + v * s;
    y = -u * s + v * c;
}
static std::vector<Interval> scan(const Paths& area, const std::vector<Fam>& fams)
{
    std::vector<Interval> r;
    for (size_t f = 0; f < fams.size(); f++)
    {
        double lo = 1e18, hi = -1e18;
        std::vector<std::vector<std::pair<double, double>>> t(area.size());
        for (size_t i = 0; i < area.size(); i++)
            for (auto& q : area[i])
            {
                double u, v;
                turn(fams[f].angle, (double)q.x, (double)q.y, u, v);
                t[i].push_back({ u, v });
                lo = std::min(lo, u);
                hi = std::max(hi, u);
            }
        for (i64 k = (i64)std::floor((lo - fams[f].shift) / fams[f].period); k <= (i64)std::ceil((hi - fams[f].shift) / fams[f].period); k++)
        {
            const double x = fams[f].shift + (double)k * fams[f].period;
            auto cut = [&](double xx)
            {
                std::vector<double> ys;
                for (auto& p : t)
                    for (size_t i = 0; i < p.size(); i++)
                    {
                        auto &a = p[i], &b = p[(i + 1) % p.size()];
                        if ((a.first > xx) != (b.first > xx))
                            ys.push_back(a.second + (xx - a.first) * (b.second - a.second) / (b.first - a.first));
                    }
                std::sort(ys.begin(), ys.end());
                return ys;
            };
            // only what is inside just left and just right of the line is asked for
            const auto l = cut(x - 4), m = cut(x + 4);
            for (size_t i = 0; i + 1 < l.size(); i += 2)
                for (size_t j = 0; j + 1 < m.size(); j += 2)
                {
                    const double a = std::max(l[i], m[j]), b = std::min(l[i + 1], m[j + 1]);
                    if (b > a)
                        r.push_back({ (int)f, k, x, a, b });
                }
        }
    }
    return r;
}
static Paths grown(const Shape& s, coord_t by)
{
    return by == 0 ? fromShape(s) : fromShape(s.offset(by));
}
// linear patterns without connections
static void linear(const Shape& outline, const Opt& o)
{
    const Out r = run(outline, o), again = run(outline, o);
    if (r.hash() != again.hash())
        return vh::fail("%s: the second time the result is another", o.name);
    const Segs got = r.segs();
    vh::state(r.hash());
    vh::outcome(vh::mix(o.name[0], got.v.size()));
    if (o.pattern != EFillMethod::ZIG_ZAG && ! r.polys.empty())
        return vh::fail("%s: closed lines", o.name);
    const Paths area = grown(outline, o.overlap);
    if (! within(got, area, 5, o.name))
        return;
    const auto fams = families(o);
    std::map<std::pair<int, i64>, std::vector<std::pair<double, double>>> by;
    for (auto& s : got.v)
    {
        bool ok = false;
        for (size_t f = 0; f < fams.size() && ! ok; f++)
        {
            double u, v, w, q;
            turn(fams[f].angle, s.ax, s.ay, u, v);
            turn(fams[f].angle, s.bx, s.by, w, q);
            const double k = std::round((u - fams[f].shift) / fams[f].period), x = fams[f].shift + k * fams[f].period;
            if (std::abs(u - x) <= 4 && std::abs(w - x) <= 4 && (s.len() > 12 || f + 1 == fams.size() || std::abs(v - q) > std::abs(u - w)))
            {
                ok = true;
                by[{ (int)f, (i64)k }].push_back({ std::min(v, q), std::max(v, q) });
            }
        }
        if (! ok)
            return vh::fail("%s: a line from (%.0f, %.0f) to (%.0f, %.0f) is not on a scan line", o.name, s.ax, s.ay, s.bx, s.by);
    }
    for (auto& [key, v] : by)
    {
        std::sort(v.begin(), v.end());
        for (size_t i = 0; i + 1 < v.size(); i++)
            if (v[i].second > v[i + 1].first + 4)
                return vh::fail("%s: scan line %d/%lld is printed twice around %.0f", o.name, key.first, (i64)key.second, v[i + 1].first);
    }
    for (auto& it : scan(area, fams))
    {
        if (it.y1 - it.y0 < o.lw / 5.0 + 10)
            continue;
        double have = 0;
        for (auto& p : by[{ it.fam, it.k }])
            have += std::max(0.0, std::min(p.second, it.y1) - std::max(p.first, it.y0));
        vh::trans();
        if (have < it.y1 - it.y0 - 10)
            return vh::fail("%s: of the scan line at %.0f (turned by %.0f) between %.0f and %.0f only %.0f is printed", o.name, it.x, fams[it.fam].angle, it.y0, it.y1, have);
    }
}
// the stretches of border between scan lines: every other one is printed, less the ones to be skipped, and ends according to the settings
static void connectors(const Paths& area, const Opt& o, const Fam& fam, const Segs& got)
{
    struct Stretch
    {
        i64 a, b;
        int printed; // 1 all, 0 none, -1 part
        bool close;
        double x, y;
    };
    std::vector<Stretch> all;
    for (auto& p : area)
    {
        struct Pt
        {
            double u, v;
            i64 scan;
            bool crossing;
        };
        std::vector<Pt> walk;
        size_t crossings = 0;
        for (size_t i = 0; i < p.size(); i++)
        {
            double u0, v0, u1, v1;
            turn(fam.angle, (double)p[i].x, (double)p[i].y, u0, v0);
            turn(fam.angle, (double)p[(i + 1) % p.size()].x, (double)p[(i + 1) % p.size()].y, u1, v1);
            const double q = (u0 - fam.shift) / fam.period;
            if (std::abs(q - std::round(q)) * fam.period < 30)
                return;
            walk.push_back({ u0, v0, 0, false });
            const double q1 = (u1 - fam.shift) / fam.period;
            std::vector<i64> ks;
            for (i64 k = (i64)std::ceil(std::min(q, q1)); k <= std::floor(std::max(q, q1)); k++)
                ks.push_back(k);
            if (q1 < q)
                std::reverse(ks.begin(), ks.end());
            for (i64 k : ks)
            {
                const double u = fam.shift + k * fam.period;
                walk.push_back({ u, v0 + (v1 - v0) * (u - u0) / (u1 - u0), k, true });
                crossings++;
            }
        }
        auto printed = [&](const std::vector<Pt>& w, double from, double to)
        {
            double at = 0;
            size_t yes = 0, no = 0;
            for (size_t i = 0; i + 1 < w.size(); i++)
            {
                const double l = std::hypot(w[i + 1].u - w[i].u, w[i + 1].v - w[i].v);
                for (double t = 0; t < l; t += 25)
                {
                    if (at + t < from || at + t > to)
                        continue;
                    const double u = w[i].u + (w[i + 1].u - w[i].u) * t / l, v = w[i].v + (w[i + 1].v - w[i].v) * t / l, q = (u - fam.shift) / fam.period;
                    if (std::abs(q - std::round(q)) * fam.period < 40)
                        continue;
                    double x, y;
                    unturn(fam.angle, u, v, x, y);
                    (got.near(x, y, 9) ? yes : no)++;
                }
                at += l;
            }
            return yes + no < 4 ? -2 : no == 0 ? 1 : yes == 0 ? 0 : -1;
        };
        if (crossings == 0)
            continue;
        size_t at = 0;
        while (! walk[at].crossing)
            at++;
        std::rotate(walk.begin(), walk.begin() + at, walk.end());
        walk.push_back(walk.front());
        for (size_t i = 0; i + 1 < walk.size();)
        {
            size_t j = i + 1;
            while (! walk[j].crossing)
                j++;
            const std::vector<Pt> w(walk.begin() + i, walk.begin() + j + 1);
            double len = 0, far = 0, last = 0;
            for (size_t k = 0; k + 1 < w.size(); k++)
                len += last = std::hypot(w[k + 1].u - w[k].u, w[k + 1].v - w[k].v);
            for (auto& q : w)
                far = std::max(far, std::abs(q.u - w.back().u));
            Stretch t{ w[0].scan, w.back().scan, 0, std::abs(far - o.d / 4.0) < 30, 0, 0 };
            const bool near = far < o.d / 4.0;
            unturn(fam.angle, w[w.size() / 2].u, w[w.size() / 2].v, t.x, t.y);
            t.printed = printed(w, 40, len - 40);
            // what is printed of a piece that comes back to the line it left
            if (t.a == t.b)
            {
                const bool whole = o.endpieces && o.connected;
                vh::trans();
                if (! t.close && t.printed != -2 && len > 150)
                {
                    if (! o.endpieces && t.printed != 0)
                        return vh::fail("%s: the end piece at (%.0f, %.0f) is printed", o.name, t.x, t.y);
                    if (whole && ! near && t.printed != 1)
                        return vh::fail("%s: the end piece at (%.0f, %.0f) is not printed", o.name, t.x, t.y);
                    if (o.endpieces && ! o.connected && ! near && w.size() > 2 && len - last > 150 && printed(w, 40, len - last - 40) == 0)
                        return vh::fail("%s: nothing of the end piece at (%.0f, %.0f) is printed", o.name, t.x, t.y);
                    if (o.endpieces && ! o.connected && last > o.lw + 60 && printed(w, len - last + 40, len - 40) == 1)
                        return vh::fail("%s: the end piece at (%.0f, %.0f) is connected at both ends", o.name, t.x, t.y);
                }
            }
            else if (std::abs(t.a - t.b) == 1 && t.printed != -2)
                all.push_back(t);
            i = j;
        }
    }
    const i64 n = o.skip && o.zags > 0 ? (i64)o.zags : 0;
    for (auto& t : all)
        if (t.printed == -1)
            return vh::fail("%s: the connection at (%.0f, %.0f) is printed in part", o.name, t.x, t.y);
    const Stretch* bad = nullptr;
    i64 best = -1;
    for (i64 off = 0; off < 2 * std::max<i64>(n, 1); off++)
    {
        i64 good = 0;
        const Stretch* here = nullptr;
        for (auto& t : all)
        {
            vh::trans();
            const i64 m = std::min(t.a, t.b) + off;
            const bool want = ((t.a + off) % 2 + 2) % 2 == 0 && ! (n && (m % n + n) % n == 0);
            if (want == (t.printed == 1))
                good++;
            else
                here = &t;
        }
        if (! here)
            return;
        if (good > best)
        {
            best = good;
            bad = here;
        }
    }
    if (bad)
        vh::fail("%s: the connection at (%.0f, %.0f) of the scan lines %lld and %lld is%s printed, out of turn with the others", o.name, bad->x, bad->y, bad->a, bad->b, bad->printed ? "" : " not");
}
// linear patterns whose ends are connected along the border
static void zigzagged(const Shape& outline, const Opt& o, bool convex)
{
    const Out r = run(outline, o), again = run(outline, o);
    if (r.hash() != again.hash())
        return vh::fail("%s: the second time the result is another", o.name);
    const Segs got = r.segs();
    vh::state(r.hash());
    vh::outcome(vh::mix(o.name[0], got.v.size()));
    Shape contour = outline.offset(o.overlap).offset(-o.lw / 2);
    const Paths area = fromShape(contour);
    if (getenv("VH_DUMP") && strcmp(getenv("VH_DUMP"), o.name) == 0)
    {
        fprintf(stderr, "area %s\n opt a=%g d=%lld shift=%lld\n", str(area).c_str(), o.angle, (i64)o.d, (i64)o.shift);
        for (auto& l : r.lines)
        {
            for (auto& p : l)
                fprintf(stderr, "(%lld,%lld) ", (i64)p.X, (i64)p.Y);
            fprintf(stderr, "\n");
        }
    }
    const bool bends = families(o).size() > 1; // where two lines meet close to the border they are bent around each other
    if (! within(got, area, bends ? o.lw / 2 + 8 : 8, o.name, o.lw + 30))
    {
        if (0)
        {
            fprintf(stderr, "area %s\n opt a=%g d=%lld shift=%lld\n", str(area).c_str(), o.angle, (i64)o.d, (i64)o.shift);
            for (auto& l : r.lines)
            {
                for (auto& p : l)
                    fprintf(stderr, "(%lld,%lld) ", (i64)p.X, (i64)p.Y);
                fprintf(stderr, "\n");
            }
        }
        return;
    }
    const auto fams = families(o);
    const bool bent = fams.size() > 1;
    Segs edge;
    for (auto& p : area)
        for (size_t i = 0; i < p.size(); i++)
            edge.add((double)p[i].x, (double)p[i].y, (double)p[(i + 1) % p.size()].x, (double)p[(i + 1) % p.size()].y);
    auto onScan = [&](double x, double y, double tol)
    {
        for (auto& f : fams)
        {
            double u, v;
            turn(f.angle, x, y, u, v);
            if (std::abs(u - f.shift - std::round((u - f.shift) / f.period) * f.period) <= tol)
                return true;
        }
        return false;
    };
    double along = 0;
    for (auto& s : got.v)
    {
        const int n = (int)(s.len() / 150) + 1;
        for (int i = 0; i <= n; i++)
        {
            const double x = s.ax + (s.bx - s.ax) * i / n, y = s.ay + (s.by - s.ay) * i / n;
            if (! onScan(x, y, bent ? 120 : 8) && ! edge.near(x, y, 10) && ! (bent && onScan(x, y, o.d / 2.0) && border(x, y, area) < o.d))
                return vh::fail("%s: (%.0f, %.0f) of (%.0f,%.0f)-(%.0f,%.0f), %.0f from the border, is neither on a scan line nor on the border [a %g d %lld]", o.name, x, y, s.ax, s.ay, s.bx, s.by, border(x, y, area), o.angle, (i64)o.d);
        }
        if (edge.near((s.ax + s.bx) / 2, (s.ay + s.by) / 2, 10))
            along += s.len();
    }
    size_t intervals = 0;
    double total = 0;
    for (auto& it : scan(area, fams))
    {
        if (it.y1 - it.y0 > 0)
            intervals++;
        total += it.y1 - it.y0;
        if (o.pattern == EFillMethod::ZIG_ZAG && it.y1 - it.y0 < o.lw / 5.0 + 10)
            continue; // too short to be made
        for (double y = it.y0 + 20; y < it.y1 - 20; y += 150)
        {
            double px, py;
            unturn(fams[it.fam].angle, it.x, y, px, py);
            vh::trans();
            if (bent && border(px, py, area) < 130)
                continue;
            if (! got.near(px, py, bent && border(px, py, area) < o.d ? std::min(390.0, o.d / 2.0) : bent ? 120 : 8))
                return vh::fail("%s: the scan line at (%.0f, %.0f), %.0f from the border, is not printed [a %g d %lld]", o.name, px, py, border(px, py, area), o.angle, (i64)o.d);
        }
    }
    if (o.pattern == EFillMethod::ZIG_ZAG)
        connectors(area, o, fams[0], got);
    // the border is never followed twice
    double perimeter = 0;
    for (auto& s : edge.v)
        perimeter += s.len();
    if (! o.endpieces && got.length() > (total + perimeter) * 1.02 + 20.0 * (double)intervals + 2000)
        return vh::fail("%s: %.0f is printed for %.0f of scan lines and %.0f of border", o.name, got.length(), total, perimeter);
    if (convex && ! o.skip && intervals >= 1 && o.pattern != EFillMethod::ZIG_ZAG && fams.size() == 1 && r.lines.size() + r.polys.size() > 1)
        return vh::fail("%s: the %zu scan lines of a rectangle give %zu separate lines", o.name, intervals, r.lines.size() + r.polys.size());
    if (! o.endpieces && r.lines.size() + r.polys.size() > std::max<size_t>(intervals, 1))
        return vh::fail("%s: %zu scan lines and %zu separate lines", o.name, intervals, r.lines.size() + r.polys.size());
}
// patterns that are made for a box and cut: the same as the pattern of a huge square, cut
static const double HALF = 30000;
struct Reference
{
    Segs s;
    Out out;
};
static const Reference& reference(const Opt& o, i64 cx, i64 cy)
{
    static std::map<std::string, Reference> m;
    char key[200];
    snprintf(key, sizeof key, "%d %lld %lld %g %lld %lld %lld", (int)o.pattern, (i64)o.d, (i64)o.lw, o.angle, (i64)o.z, cx, cy);
    auto it = m.find(key);
    if (it == m.end())
    {
        if (m.size() > 40)
            m.clear();
        Shape sq;
        sq.push_back(Polygon(ClipperLib::Path{ { (i64)(cx - HALF), (i64)(cy - HALF) }, { (i64)(cx + HALF), (i64)(cy - HALF) }, { (i64)(cx + HALF), (i64)(cy + HALF) }, { (i64)(cx - HALF), (i64)(cy + HALF) } }, false));
        Opt p = o;
        p.zig = false;
        p.overlap = 0;
        Reference r;
        r.out = run(sq, p);
        r.s = r.out.segs();
        it = m.emplace(key, std::move(r)).first;
    }
    return it->second;
}
static void cutout(const Shape& outline, const Opt& o)
{
    const Out r = run(outline, o), again = run(outline, o);
    if (r.hash() != again.hash())
        return vh::fail("%s: the second time the result is another", o.name);
    const Segs got = r.segs();
    vh::state(r.hash());
    vh::outcome(vh::mix(o.name[0], got.v.size()));
    Shape contour = outline.offset(o.overlap);
    if (o.zig)
        contour = contour.offset(-o.lw / 2);
    const Paths area = fromShape(contour);
    // ends closer than a line width are stitched, across a corner if need be
    if (! within(got, area, 12, o.name, o.lw + 30))
        return;
    AABB box(contour);
    const i64 cx = (box.min_.X + box.max_.X) / 2 / 10000 * 10000, cy = (box.min_.Y + box.max_.Y) / 2 / 10000 * 10000;
    const Reference& ref = reference(o, cx, cy);
    Segs edge;
    for (auto& p : area)
        for (size_t i = 0; i < p.size(); i++)
            edge.add((double)p[i].x, (double)p[i].y, (double)p[(i + 1) % p.size()].x, (double)p[(i + 1) % p.size()].y);
    // rounding of the pieces of honeycombs and octagons adds up along the rows, from a start that depends on the box
    const double tol = o.pattern == EFillMethod::GYROID ? 12 : 40;
    for (auto& s : got.v)
    {
        const int n = (int)(s.len() / 150) + 1;
        for (int i = 0; i <= n; i++)
        {
            const double x = s.ax + (s.bx - s.ax) * i / n, y = s.ay + (s.by - s.ay) * i / n;
            // stitching joins ends that are less than a line width apart
            if (! ref.s.near(x, y, tol) && ! (edge.near(x, y, o.zig ? 110 : 30)) && s.len() > o.lw + 30)
                return vh::fail("%s: (%.0f, %.0f) is not on the pattern%s (%.0f,%.0f)-(%.0f,%.0f) d %lld angle %g", o.name, x, y, o.zig ? " nor on the border" : "", s.ax, s.ay, s.bx, s.by, (i64)o.d, o.angle);
        }
    }
    for (auto& s : ref.s.v)
    {
        const int n = (int)(s.len() / 150) + 1;
        for (int i = 0; i <= n; i++)
        {
            const double x = s.ax + (s.bx - s.ax) * i / n, y = s.ay + (s.by - s.ay) * i / n;
            if (x < box.min_.X || x > box.max_.X || y < box.min_.Y || y > box.max_.Y || ! inside(x, y, area) || border(x, y, area) < 30)
                continue;
            vh::trans();
            if (! got.near(x, y, tol))
                return vh::fail("%s: the pattern at (%.0f, %.0f) is not printed", o.name, x, y);
        }
    }
}
// the pattern itself, over a huge square
static void field(const Opt& o, i64 cx, i64 cy, double dens_lo, double dens_hi, double reach, double apart)
{
    const Reference& ref = reference(o, cx, cy);
    const double in = HALF - 2.0 * (double)o.d - 3000;
    double len = 0;
    std::vector<int> lineOf;
    for (auto& l : ref.out.lines)
        for (size_t i = 0; i + 1 < l.size(); i++)
            lineOf.push_back((int)(&l - &*ref.out.lines.begin()));
    std::vector<char> occ;
    for (size_t k = 0; k < ref.s.v.size(); k++)
    {
        auto& s = ref.s.v[k];
        const int n = (int)(s.len() / 50) + 1;
        for (int i = 0; i < n; i++)
        {
            const double x = s.ax + (s.bx - s.ax) * (i + 0.5) / n, y = s.ay + (s.by - s.ay) * (i + 0.5) / n;
            if (std::abs(x - cx) < in && std::abs(y - cy) < in)
            {
                len += s.len() / n;
            }
        }
    }
    const double density = len / (4 * in * in) * (double)o.d;
    vh::state(vh::mix(vh::mix((int)o.pattern, o.d), vh::mix(o.z, (uint64_t)(o.angle * 10))));
    if (getenv("VH_DENS"))
        fprintf(stderr, "%s d %lld lw %lld z %lld angle %g: density %.3f\n", o.name, (i64)o.d, (i64)o.lw, (i64)o.z, o.angle, density);
    if (density < dens_lo || density > dens_hi)
        vh::fail("%s: over a large area the density is %.3f of that of lines at the distance asked for", o.name, density);
    for (double x = cx - in; x <= cx + in; x += o.d / 3.0)
        for (double y = cy - in; y <= cy + in; y += o.d / 3.0)
        {
            bool f = false;
            // ring by ring: the hash only looks near, so walk a small lattice
            for (double u = -reach; u <= reach && ! f; u += 300)
                for (double v = -reach; v <= reach && ! f; v += 300)
                    if (u * u + v * v <= reach * reach)
                        f = ref.s.near(x + u, y + v, 213);
            vh::trans();
            if (! f)
                return vh::fail("%s: no line within %.0f of (%.0f, %.0f)", o.name, reach, x, y);
        }
    if (o.pattern == EFillMethod::GYROID)
    {
        // the lines are where sin y cos x + sin x cos z + sin z cos y = 0
        int pitch = (int)(o.d * 2.41), n = 4;
        while (pitch / n > 500 && n < 16)
            n *= 2;
        pitch = pitch / n * n;
        const double w = 2 * std::numbers::pi / pitch;
        auto f = [&](double x, double y)
        {
            double u, v;
            turn(o.angle, x, y, u, v);
            return std::sin(v * w) * std::cos(u * w) + std::sin(u * w) * std::cos(o.z * w) + std::sin(o.z * w) * std::cos(v * w);
        };
        for (auto& s : ref.s.v)
            if (std::abs(s.ax - cx) < in && std::abs(s.ay - cy) < in && std::abs(f(s.ax, s.ay)) > 0.02)
                return vh::fail("%s: (%.0f, %.0f) is not on a gyroid: %.3f", o.name, s.ax, s.ay, f(s.ax, s.ay));
        const double st = 331;
        for (double x = cx - in; x <= cx + in; x += st)
            for (double y = cy - in; y <= cy + in; y += st)
            {
                vh::trans();
                if (f(x, y) * f(x + st, y) < 0 && ! ref.s.near(x + st / 2, y, st / 2 + 110))
                    return vh::fail("%s: the gyroid passes between (%.0f, %.0f) and %.0f right of it, and no line does", o.name, x, y, st);
                if (f(x, y) * f(x, y + st) < 0 && ! ref.s.near(x, y + st / 2, st / 2 + 110))
                    return vh::fail("%s: the gyroid passes between (%.0f, %.0f) and %.0f above it, and no line does", o.name, x, y, st);
            }
    }
    if (apart > 0)
        for (size_t k = 0; k < ref.s.v.size() && k < lineOf.size(); k++)
        {
            auto& s = ref.s.v[k];
            if (std::abs(s.ax - cx) > in || std::abs(s.ay - cy) > in)
                continue;
            const int n = (int)(s.len() / 200) + 1;
            for (int i = 0; i <= n; i++)
            {
                const double x = s.ax + (s.bx - s.ax) * i / n, y = s.ay + (s.by - s.ay) * i / n;
                const i64 a = (i64)std::floor(x / Segs::CELL), b = (i64)std::floor(y / Segs::CELL);
                for (i64 u = a - 1; u <= a + 1; u++)
                    for (i64 v = b - 1; v <= b + 1; v++)
                    {
                        auto it = ref.s.g.find(Segs::key(u, v));
                        if (it != ref.s.g.end())
                            for (int q : it->second)
                                if (q < (int)lineOf.size() && lineOf[q] != lineOf[k] && distSeg(x, y, ref.s.v[q]) < apart)
                                    return vh::fail("%s: two lines %.0f apart at (%.0f, %.0f)", o.name, distSeg(x, y, ref.s.v[q]), x, y);
                    }
            }
        }
}
static const char* nm(EFillMethod p)
{
    switch (p)
    {
    case EFillMethod::LINES: return "lines";
    case EFillMethod::GRID: return "grid";
    case EFillMethod::TRIANGLES: return "triangles";
    case EFillMethod::TRIHEXAGON: return "trihexagon";
    case EFillMethod::CUBIC: return "cubic";
    case EFillMethod::TETRAHEDRAL: return "tetrahedral";
    case EFillMethod::QUARTER_CUBIC: return "quarter cubic";
    case EFillMethod::ZIG_ZAG: return "zigzag";
    case EFillMethod::GYROID: return "gyroid";
    case EFillMethod::HONEYCOMB: return "honeycomb";
    case EFillMethod::OCTAGON: return "octagon";
    default: return "?";
    }
}
static const EFillMethod LINEAR[] = { EFillMethod::LINES, EFillMethod::GRID, EFillMethod::TRIANGLES, EFillMethod::TRIHEXAGON, EFillMethod::CUBIC, EFillMethod::TETRAHEDRAL, EFillMethod::QUARTER_CUBIC };
static const EFillMethod CURVED[] = { EFillMethod::GYROID, EFillMethod::HONEYCOMB, EFillMethod::OCTAGON };
static bool rectangle(int w, int h, uint64_t m)
{
    for (int a = 0; a < w; a++)
        for (int b = a; b < w; b++)
            for (int c = 0; c < h; c++)
                for (int d = c; d < h; d++)
                {
                    uint64_t r = 0;
                    for (int x = a; x <= b; x++)
                        for (int y = c; y <= d; y++)
                            r |= 1ull << (y * w + x);
                    if (r == m)
                        return true;
                }
    return false;
}

// several lines next to each other: at fixed distances beside the scan lines
static void multiplied(const Shape& outline, const Opt& o)
{
    const Out r = run(outline, o), again = run(outline, o);
    if (r.hash() != again.hash())
        return vh::fail("%s: the second time the result is another", o.name);
    const Segs got = r.segs();
    vh::state(r.hash());
    Shape contour = outline.offset(o.overlap);
    const bool even = o.mult % 2 == 0;
    if (o.zig)
        contour = contour.offset(-o.lw / 2);
    else if (even)
        contour = contour.offset(-o.lw / 2);
    const Paths area = fromShape(contour);
    if (! within(got, area, 12, o.name, o.lw + 30))
        return;
    const auto fams = families(o);
    const double reach = (double)(o.mult - 1) / 2 * (double)o.lw;
    for (auto& it : scan(area, fams))
        for (double y = it.y0; y < it.y1; y += 200)
            for (size_t k = 0; k < o.mult; k++)
            {
                const double off = -reach + (double)k * (double)o.lw;
                double px, py, qx, qy;
                unturn(fams[it.fam].angle, it.x + off, y, px, py);
                unturn(fams[it.fam].angle, it.x, y, qx, qy);
                if (! inside(px, py, area) || border(px, py, area) < reach + 500 || border(qx, qy, area) < reach + 500)
                    continue;
                vh::trans();
                if (! got.near(px, py, 15))
                    return vh::fail("%s x %zu: (%.0f, %.0f), line %zu beside a scan line, is not printed", o.name, o.mult, px, py, k);
            }
    for (auto& s : got.v)
    {
        const int n = (int)(s.len() / 150) + 1;
        for (int i = 0; i <= n; i++)
        {
            const double x = s.ax + (s.bx - s.ax) * i / n, y = s.ay + (s.by - s.ay) * i / n;
            if (! inside(x, y, area) || border(x, y, area) < reach + 500)
                continue;
            bool ok = false;
            for (auto& f : fams)
            {
                double u, v;
                turn(f.angle, x, y, u, v);
                const double lateral = std::abs(u - f.shift - std::round((u - f.shift) / f.period) * f.period);
                for (size_t k = 0; k < o.mult; k++)
                    ok |= std::abs(lateral - std::abs(-reach + (double)k * (double)o.lw)) <= 15;
            }
            if (! ok)
                return vh::fail("%s x %zu: (%.0f, %.0f) is not beside a scan line", o.name, o.mult, x, y);
        }
    }
}
// loops at regular depths
static void concentric(const Shape& outline, const Opt& o)
{
    const Out r = run(outline, o), again = run(outline, o);
    if (r.hash() != again.hash())
        return vh::fail("%s: the second time the result is another", o.name);
    vh::state(r.hash());
    const Paths area = grown(outline, o.overlap);
    Segs got;
    for (auto& v : r.paths)
        for (auto& e : v)
            for (size_t i = 0; i + 1 < e.junctions_.size(); i++)
                got.add((double)e.junctions_[i].p_.X, (double)e.junctions_[i].p_.Y, (double)e.junctions_[i + 1].p_.X, (double)e.junctions_[i + 1].p_.Y);
    if (! r.lines.empty() || ! r.polys.empty())
        return vh::fail("%s: straight lines besides the loops", o.name);
    i64 x0 = LLONG_MAX, y0 = LLONG_MAX, x1 = LLONG_MIN, y1 = LLONG_MIN;
    for (auto& p : area)
        for (auto& q : p)
        {
            x0 = std::min(x0, q.x);
            y0 = std::min(y0, q.y);
            x1 = std::max(x1, q.x);
            y1 = std::max(y1, q.y);
        }
    for (auto& s : got.v)
    {
        const double x = s.ax, y = s.ay;
        if (! inside(x, y, area) || border(x, y, area) < (double)o.lw / 2 - 130)
            return vh::fail("%s: the loop at (%.0f, %.0f) is %.0f from the border", o.name, x, y, inside(x, y, area) ? border(x, y, area) : -border(x, y, area));
    }
    // walking inwards from the middle of each edge of the area
    for (auto& p : area)
        for (size_t i = 0; i < p.size(); i++)
        {
            const double ax = (double)p[i].x, ay = (double)p[i].y, bx = (double)p[(i + 1) % p.size()].x, by = (double)p[(i + 1) % p.size()].y, l = std::hypot(bx - ax, by - ay);
            for (double f : { 0.35, 0.5, 0.65 })
            {
                double nx = -(by - ay) / l, ny = (bx - ax) / l;
                if (! inside(ax + (bx - ax) * f + nx * 20, ay + (by - ay) * f + ny * 20, area))
                    nx = -nx, ny = -ny;
                for (int k = 0; k < 12; k++)
                {
                    const double depth = (k + 1) * (double)o.d - (double)o.lw / 2; // the first loop keeps the distance to the walls around
                    auto wide = [&](double d)
                    { return inside(ax + (bx - ax) * f + nx * d, ay + (by - ay) * f + ny * d, area) && border(ax + (bx - ax) * f + nx * d, ay + (by - ay) * f + ny * d, area) > d - 3; };
                    if (! wide(depth + (double)o.lw * 1.6))
                        break;
                    const double x = ax + (bx - ax) * f + nx * depth, y = ay + (by - ay) * f + ny * depth;
                    vh::trans();
                    if (! got.near(x, y, 40 + 4 * k))
                        return vh::fail("%s: no loop %d at (%.0f, %.0f), %.0f deep", o.name, k, x, y, depth);
                    if (o.d > o.lw + 300 && wide(depth + (double)o.d) && got.near(x + nx * (double)o.d / 2, y + ny * (double)o.d / 2, (double)(o.d - o.lw) / 2 - 60))
                        return vh::fail("%s: something is printed between the loops near (%.0f, %.0f)", o.name, x, y);
                }
            }
        }
}
// extra walls around a pattern
static void walled(const Shape& outline, const Opt& o)
{
    const Out r = run(outline, o), again = run(outline, o);
    if (r.hash() != again.hash())
        return vh::fail("%s: the second time the result is another", o.name);
    vh::state(r.hash());
    const Paths area = fromShape(outline), rest = fromShape(outline.offset(-(coord_t)o.walls * o.lw).offset(o.overlap));
    Segs walls;
    for (auto& v : r.paths)
        for (auto& e : v)
            for (size_t i = 0; i + 1 < e.junctions_.size(); i++)
                walls.add((double)e.junctions_[i].p_.X, (double)e.junctions_[i].p_.Y, (double)e.junctions_[i + 1].p_.X, (double)e.junctions_[i + 1].p_.Y);
    for (auto& p : area)
        for (size_t i = 0; i < p.size(); i++)
        {
            const double ax = (double)p[i].x, ay = (double)p[i].y, bx = (double)p[(i + 1) % p.size()].x, by = (double)p[(i + 1) % p.size()].y, l = std::hypot(bx - ax, by - ay);
            double nx = -(by - ay) / l, ny = (bx - ax) / l;
            if (! inside((ax + bx) / 2 + nx * 20, (ay + by) / 2 + ny * 20, area))
                nx = -nx, ny = -ny;
            for (size_t k = 0; k < o.walls; k++)
            {
                const double depth = (double)o.lw * ((double)k + 0.5), x = (ax + bx) / 2 + nx * depth, y = (ay + by) / 2 + ny * depth;
                vh::trans();
                if (! walls.near(x, y, 30))
                    return vh::fail("%s: wall %zu is missing at (%.0f, %.0f)", o.name, k, x, y);
            }
        }
    const Segs got = r.segs();
    const auto fams = families(o);
    for (auto& s : got.v)
        for (double x : { s.ax, (s.ax + s.bx) / 2, s.bx })
        {
            const double y = x == s.ax ? s.ay : x == s.bx ? s.by : (s.ay + s.by) / 2;
            if (! inside(x, y, area) || border(x, y, area) < (double)((coord_t)o.walls * o.lw - o.overlap) - 60)
                return vh::fail("%s in %zu walls: (%.0f, %.0f) is printed %.0f from the outline", o.name, o.walls, x, y, border(x, y, area));
        }
    for (auto& it : scan(rest, fams))
        for (double y = it.y0 + 100; y < it.y1 - 100; y += 150)
        {
            double px, py;
            unturn(fams[it.fam].angle, it.x, y, px, py);
            if (border(px, py, rest) < 60)
                continue;
            vh::trans();
            if (! got.near(px, py, 8))
                return vh::fail("%s in %zu walls: the scan line at (%.0f, %.0f) is not printed", o.name, o.walls, px, py);
        }
}
// cubic subdivision: cubes standing on a corner, divided towards the surface of the model
struct Stack
{
    std::vector<const Paths*> layers;
    std::shared_ptr<Mesh> mesh;
    std::shared_ptr<SliceMeshStorage> st;
    coord_t lh = 200, d, add;
    double angle;
    Point2LL origin;
};
static Stack stack(const std::vector<const Paths*>& layers, coord_t d, coord_t add, double angle, Point2LL origin)
{
    Stack k;
    k.layers = layers;
    k.d = d;
    k.add = add;
    k.angle = angle;
    k.origin = origin;
    k.mesh = std::make_shared<Mesh>(*const_cast<Settings*>(settings));
    k.mesh->settings_.add("infill_line_distance", std::to_string(d / 1000.0));
    k.mesh->settings_.add("sub_div_rad_add", std::to_string(add / 1000.0));
    k.mesh->settings_.add("infill_angles", angle == 0 ? std::string("[ ]") : "[ " + std::to_string((int)angle) + " ]");
    k.mesh->settings_.add("layer_height", "0.2");
    for (const char* s : { "machine_height", "machine_width", "machine_depth" })
        k.mesh->settings_.add(s, "100");
    k.st = std::make_shared<SliceMeshStorage>(k.mesh.get(), layers.size());
    for (size_t l = 0; l < layers.size(); l++)
    {
        if (layers[l]->empty())
            continue;
        for (const SingleShape& ss : toShape(*layers[l]).splitIntoParts())
            k.st->layers[l].parts.emplace_back().infill_area = ss;
    }
    SubDivCube::precomputeOctree(*k.st, origin);
    return k;
}
static void subdivided(const Stack& k, const std::vector<i64>& heights)
{
    const double S2 = std::sqrt(2.0), S3 = std::sqrt(3.0), S6 = std::sqrt(6.0);
    double e[3][3] = { { -1 / S2, -1 / S6, 1 / S3 }, { 1 / S2, -1 / S6, 1 / S3 }, { 0, std::sqrt(2 / 3.0), 1 / S3 } };
    const double a = k.angle * std::numbers::pi / 180, c = std::cos(a), s = std::sin(a);
    for (auto& v : e)
    {
        const double x = v[0] * c - v[1] * s, y = v[0] * s + v[1] * c;
        v[0] = x;
        v[1] = y;
    }
    std::map<std::tuple<int, i64, i64, i64>, int> known; // 1: has to be there, -1: cannot be there, 0: either
    std::map<std::tuple<const Paths*, i64, i64>, std::pair<bool, double>> dists;
    auto cell = [&](int lev, const i64 idx[3]) // centre in units of d
    {
        auto [it, fresh] = known.try_emplace({ lev, idx[0], idx[1], idx[2] }, 0);
        if (! fresh)
            return it->second;
        double x = k.origin.X, y = k.origin.Y, z = 0;
        for (int i = 0; i < 3; i++)
        {
            x += e[i][0] * idx[i] * k.d;
            y += e[i][1] * idx[i] * k.d;
            z += e[i][2] * idx[i] * k.d;
        }
        const double side = 2.0 * k.d * (1 << lev), r = S3 * side / 2 + k.add;
        const i64 lo = (i64)std::floor((z - r) / k.lh), hi = (i64)std::ceil((z + r) / k.lh);
        int run = 0, in = 0, out = 0, most_in = 0, most_out = 0;
        bool must = false, may = false, seen[2] = { false, false };
        const i64 hx = std::llround(x), hy = std::llround(y);
        for (i64 t = lo - 1; t <= hi + 1; t++)
        {
            const bool sure = t > lo && t < hi; // among the layers that are looked at
            bool inn = false, range = t >= 0 && t < (i64)k.layers.size() && ! k.layers[t]->empty();
            double dist = 1e18;
            if (range)
            {
                auto [f, nw] = dists.try_emplace({ k.layers[t], hx, hy }, false, 0.0);
                if (nw)
                    f->second = { inside(x, y, *k.layers[t]), border(x, y, *k.layers[t]) };
                inn = f->second.first;
                dist = f->second.second;
            }
            const double slice = r * r - (t * k.lh - z) * (t * k.lh - z), sl = slice > 0 ? std::sqrt(slice) : 0;
            const bool touch = range && slice > 0 && dist < sl - 20;
            run = touch && sure ? run + 1 : 0;
            must |= run >= 3;
            may |= range && slice > -100 * r && dist < sl + 20;
            seen[inn] = true;
            if (dist < 5)
                may = true;
            in = inn && sure && dist > 5 ? in + 1 : 0;
            out = ! inn && sure && dist > 5 ? out + 1 : 0;
            most_in = std::max(most_in, in);
            most_out = std::max(most_out, out);
        }
        if (seen[0] && seen[1])
            may = true;
        if (most_in >= 3 && most_out >= 3)
            must = true;
        return it->second = must ? 1 : may ? 0 : -1;
    };
    // what the cube at a place demands of the plane i through it: 1, 0, -1
    auto demand = [&](int i, i64 n, double x, double y, double z)
    {
        if (n == 0)
            return 1;
        int lev = 0;
        while (! (n >> lev & 1))
            lev++;
        i64 idx[3];
        for (int j = 0; j < 3; j++)
        {
            const double side = 2.0 * k.d * (1 << lev), u = e[j][0] * (x - k.origin.X) + e[j][1] * (y - k.origin.Y) + e[j][2] * z;
            if (j == i)
            {
                idx[j] = n;
                continue;
            }
            const double q = std::floor(u / side);
            if (u - q * side < 60 || (q + 1) * side - u < 60)
                return 0;
            idx[j] = (2 * (i64)q + 1) * (1 << lev);
        }
        return cell(lev, idx);
    };
    for (i64 z : heights)
    {
        const Paths& area = *k.layers[std::min<i64>(z / k.lh, k.layers.size() - 1)];
        if (area.empty())
            continue;
        Opt o;
        o.pattern = EFillMethod::CUBICSUBDIV;
        o.name = "cubic subdivision";
        o.d = k.d;
        o.z = z;
        o.skipStitch = true;
        const Shape sh = toShape(area);
        const Out r = run(sh, o, nullptr, k.st.get()), again = run(sh, o, nullptr, k.st.get());
        if (r.hash() != again.hash())
            return vh::fail("%s: the second time the result is another", o.name);
        const Segs got = r.segs();
        vh::state(r.hash());
        vh::outcome(vh::mix(77, got.v.size()));
        if (! within(got, area, 5, o.name))
            return;
        // every printed line lies on the middle of a cube that may be there
        for (auto& g : got.v)
        {
            bool on = g.len() < 30;
            for (int i = 0; i < 3 && ! on; i++)
            {
                auto u = [&](double x, double y) { return e[i][0] * (x - k.origin.X) + e[i][1] * (y - k.origin.Y) + e[i][2] * z; };
                const double n = std::round(u(g.ax, g.ay) / k.d);
                if (std::abs(u(g.ax, g.ay) - n * k.d) > 25 || std::abs(u(g.bx, g.by) - n * k.d) > 25)
                    continue;
                on = true;
                const int m = (int)(g.len() / 150) + 1;
                for (int q = 0; q <= m; q++)
                {
                    const double x = g.ax + (g.bx - g.ax) * q / m, y = g.ay + (g.by - g.ay) * q / m;
                    if (demand(i, (i64)n, x, y, z) < 0)
                        return vh::fail("%s: (%.0f, %.0f, %lld) is printed though its cube is away from the surface (distance %lld, radius %lld, angle %g)", o.name, x, y, z, (i64)k.d, (i64)k.add, k.angle);
                }
            }
            if (! on)
                return vh::fail("%s: (%.0f, %.0f)-(%.0f, %.0f) at %lld is not on the sides of a cube (distance %lld, angle %g)", o.name, g.ax, g.ay, g.bx, g.by, z, (i64)k.d, k.angle);
        }
        // and the middles of the cubes that have to be there are printed
        double x0 = 1e18, x1 = -1e18, y0 = 1e18, y1 = -1e18;
        for (auto& p : area)
            for (auto& v : p)
                x0 = std::min(x0, (double)v.x), x1 = std::max(x1, (double)v.x), y0 = std::min(y0, (double)v.y), y1 = std::max(y1, (double)v.y);
        const double mx = (x0 + x1) / 2, my = (y0 + y1) / 2, rad = std::hypot(x1 - x0, y1 - y0) / 2 + 100;
        for (int i = 0; i < 3; i++)
        {
            const double l = std::hypot(e[i][0], e[i][1]), nx = e[i][0] / l, ny = e[i][1] / l;
            const double u = e[i][0] * (mx - k.origin.X) + e[i][1] * (my - k.origin.Y) + e[i][2] * z;
            for (i64 n = (i64)std::ceil((u - rad) / k.d); n * k.d <= u + rad; n++)
            {
                const double off = (n * k.d - u) / l;
                for (double t = -rad; t <= rad; t += 150)
                {
                    const double x = mx + nx * off - ny * t, y = my + ny * off + nx * t;
                    if (x < x0 || x > x1 || y < y0 || y > y1 || ! inside(x, y, area) || border(x, y, area) < 40 || demand(i, n, x, y, z) <= 0)
                        continue;
                    vh::trans();
                    if (! got.near(x, y, 25))
                        return vh::fail("%s: the cube around (%.0f, %.0f, %lld) near the surface is not printed (distance %lld, radius %lld, angle %g, step %lld)", o.name, x, y, z, (i64)k.d, (i64)k.add, k.angle, n);
                }
            }
        }
    }
}
// the cross patterns: one curve through the whole box of the model
struct Curve
{
    Polygon p;
    Segs s;
    double len = 0;
};
static Curve curve(const SierpinskiFillProvider& f, EFillMethod pat, i64 z, coord_t lw, coord_t pocket)
{
    Curve c;
    c.p = f.generate(pat, z, lw, pocket);
    for (size_t i = 0; i < c.p.size(); i++)
    {
        const auto &a = c.p[i], &b = c.p[(i + 1) % c.p.size()];
        c.s.add(a.X, a.Y, b.X, b.Y);
    }
    c.len = c.s.length();
    return c;
}
static bool cut(const S& a, const S& b)
{
    auto o = [](double ax, double ay, double bx, double by, double cx, double cy) { return (bx - ax) * (cy - ay) - (by - ay) * (cx - ax); };
    const double p = o(a.ax, a.ay, a.bx, a.by, b.ax, b.ay), q = o(a.ax, a.ay, a.bx, a.by, b.bx, b.by), r = o(b.ax, b.ay, b.bx, b.by, a.ax, a.ay), s = o(b.ax, b.ay, b.bx, b.by, a.bx, a.by);
    return p * q < 0 && r * s < 0;
}
static double nearest(const Segs& g, double x, double y)
{
    double d = 1e18;
    for (auto& s : g.v)
        d = std::min(d, distSeg(x, y, s));
    return d;
}
// judge one curve; aabb: the box of the model
static bool crossed(const Curve& c, const AABB& box, const AABB& square, double want, double tol, const char* what)
{
    vh::state(vh::mix(c.p.size(), (uint64_t)(c.len * 16)));
    if (square.min_.X > box.min_.X + 1 || square.min_.Y > box.min_.Y + 1 || square.max_.X < box.max_.X - 1 || square.max_.Y < box.max_.Y - 1)
    {
        vh::fail("%s: the curve does not reach over the model", what);
        return false;
    }
    for (auto& s : c.s.v)
    {
        vh::trans();
        if (s.ax < square.min_.X - 2 || s.ay < square.min_.Y - 2 || s.ax > square.max_.X + 2 || s.ay > square.max_.Y + 2)
        {
            vh::fail("%s: (%.0f, %.0f) is outside of the box", what, s.ax, s.ay);
            return false;
        }
    }
    for (auto& [key, ids] : c.s.g)
        for (size_t i = 0; i < ids.size(); i++)
            for (size_t j = i + 1; j < ids.size(); j++)
                if (cut(c.s.v[ids[i]], c.s.v[ids[j]]))
                {
                    const S& s = c.s.v[ids[i]];
                    vh::fail("%s: the curve crosses itself at (%.0f, %.0f)", what, s.ax, s.ay);
                    return false;
                }
    if (want > 0 && square.max_.X - square.min_.X > 6 / want)
    {
        const double got = c.len / ((double)(square.max_.X - square.min_.X) * (square.max_.Y - square.min_.Y));
        if (getenv("VH_MEASURE"))
            fprintf(stderr, "%s: %f\n", what, got / want);
        if (got < want * (1 - tol) || got > want * (1 + tol))
        {
            vh::fail("%s: %.3f of the wanted length", what, got / want);
            return false;
        }
    }
    return true;
}
static void crossFill(i64 cx, i64 cy, i64 w, i64 h, i64 height, coord_t d, coord_t lw, coord_t pocket)
{
    const AABB3D box3(Point3LL(cx - w / 2, cy - h / 2, 0), Point3LL(cx + w / 2, cy + h / 2, height));
    const AABB box(Point2LL(cx - w / 2, cy - h / 2), Point2LL(cx + w / 2, cy + h / 2));
    const auto f = std::make_shared<SierpinskiFillProvider>(box3, d, lw);
    const AABB sq = f->fractal_config.aabb;
    char name[160];
    snprintf(name, sizeof name, "cross %lldx%lld distance %lld width %lld", w, h, (i64)d, (i64)lw);
    const Curve flat = curve(*f, EFillMethod::CROSS, 0, lw, pocket), flat2 = curve(*f, EFillMethod::CROSS, 777, lw, pocket);
    if (flat.s.v.size() != flat2.s.v.size() || flat.len != flat2.len)
        return vh::fail("%s: the curve depends on the height", name);
    if (! crossed(flat, box, sq, 1.0 / d, 0.25, name))
        return;
    vh::outcome(flat.s.v.size());
    Curve before;
    for (i64 z = 0; z < height; z += 170)
    {
        const Curve c = curve(*f, EFillMethod::CROSS_3D, z, lw, 0);
        snprintf(name, sizeof name, "cross 3D %lldx%lld distance %lld width %lld at %lld", w, h, (i64)d, (i64)lw, z);
        if (! crossed(c, box, sq, 1.0 / d, 0.6, name))
            return;
        if (z > 0) // what is printed rests on what was printed before
            for (auto& s : c.s.v)
            {
                vh::trans();
                if (! before.s.near(s.ax, s.ay, 170 * 1.42 + 20))
                    return vh::fail("%s: (%.0f, %.0f) is %.0f away from the curve 170 below", name, s.ax, s.ay, nearest(before.s, s.ax, s.ay));
            }
        before = c;
        if (pocket > 0)
        {
            const Curve p = curve(*f, EFillMethod::CROSS_3D, z, lw, pocket);
            snprintf(name, sizeof name, "cross 3D %lldx%lld distance %lld pocket %lld at %lld", w, h, (i64)d, (i64)pocket, z);
            if (! crossed(p, box, sq, 0, 0, name))
                return;
            for (auto& s : p.s.v)
                if (! c.s.near(s.ax, s.ay, 3) || ! c.s.near((s.ax + s.bx) / 2, (s.ay + s.by) / 2, pocket / 2.0 + 10))
                    return vh::fail("%s: (%.0f, %.0f) is off the curve without pockets", name, s.ax, s.ay);
            for (auto& s : c.s.v)
                if (! p.s.near((s.ax + s.bx) / 2, (s.ay + s.by) / 2, 3))
                    return vh::fail("%s: the middle of a side at (%.0f, %.0f) is lost", name, s.ax, s.ay);
        }
        // cut out by an outline
        Shape outline;
        outline.push_back(Polygon({ { cx - w / 2, cy - h / 2 }, { cx + w / 3, cy - h / 2 }, { cx + w / 2, cy + h / 2 }, { cx, cy + h / 3 }, { cx - w / 2, cy + h / 2 } }, false));
        for (int zig = 0; zig < 2; zig++)
        {
            Opt o;
            o.pattern = z % 340 ? EFillMethod::CROSS_3D : EFillMethod::CROSS;
            o.name = zig ? "cross outline" : "cross";
            o.zig = zig;
            o.z = z;
            o.lw = lw;
            o.skipStitch = true;
            o.pocket = pocket;
            const Out r = run(outline, o, f), again = run(outline, o, f);
            if (r.hash() != again.hash())
                return vh::fail("%s: the second time the result is another", o.name);
            const Shape contour = zig ? outline.offset(-lw / 2) : outline;
            const Paths area = fromShape(contour);
            const Segs got = r.segs();
            if (! within(got, area, 12, o.name, lw + 30))
                return;
            const Curve full = curve(*f, o.pattern, z, lw, pocket);
            for (auto& s : full.s.v)
                for (int i = 0; i <= 4; i++)
                {
                    const double x = s.ax + (s.bx - s.ax) * i / 4, y = s.ay + (s.by - s.ay) * i / 4;
                    if (! inside(x, y, area) || border(x, y, area) < 30)
                        continue;
                    vh::trans();
                    if (! got.near(x, y, 12))
                        return vh::fail("%s: the curve at (%.0f, %.0f) is not printed", o.name, x, y);
                }
            for (auto& s : got.v)
            {
                const double x = (s.ax + s.bx) / 2, y = (s.ay + s.by) / 2;
                if (s.len() > lw + 30 && ! full.s.near(x, y, 12) && ! (zig && border(x, y, area) < 30))
                    return vh::fail("%s: (%.0f, %.0f) is not on the curve", o.name, x, y);
            }
        }
    }
}
// densities from an image of 2x2 or more squares of black (dense) and white (sparse)
static void crossImage(int n, uint64_t mask, coord_t d, coord_t lw)
{
    char file[64];
    snprintf(file, sizeof file, "/tmp/vh-cross-%d.pgm", (int)getpid());
    FILE* out = fopen(file, "wb");
    const int px = 24;
    fprintf(out, "P5\n%d %d\n255\n", n * px, n * px);
    for (int y = n * px - 1; y >= 0; y--)
        for (int x = 0; x < n * px; x++)
            fputc(mask >> (y / px * n + x / px) & 1 ? 0 : 255, out);
    fclose(out);
    const i64 w = 48000, cx = 3000, cy = -7000;
    const AABB3D box3(Point3LL(cx - w / 2, cy - w / 2, 0), Point3LL(cx + w / 2, cy + w / 2, 5000));
    const AABB box(Point2LL(cx - w / 2, cy - w / 2), Point2LL(cx + w / 2, cy + w / 2));
    const auto f = std::make_shared<SierpinskiFillProvider>(box3, d, lw, std::string(file));
    unlink(file);
    char name[100];
    snprintf(name, sizeof name, "cross from image %dx%d %llu", n, n, (unsigned long long)mask);
    const Curve c = curve(*f, EFillMethod::CROSS, 0, lw, 0);
    if (! crossed(c, box, f->fractal_config.aabb, 0, 0, name))
        return;
    // lengths in the middle of the squares
    double least = 1e18, most = 0;
    for (int k = 0; k < n * n; k++)
    {
        const double side = (double)w / n, x0 = cx - w / 2 + (k % n + 0.25) * side, y0 = cy - w / 2 + (k / n + 0.25) * side;
        double l = 0;
        for (auto& s : c.s.v)
        {
            const int m = (int)(s.len() / 100) + 1;
            for (int i = 0; i < m; i++)
            {
                const double x = s.ax + (s.bx - s.ax) * (i + 0.5) / m, y = s.ay + (s.by - s.ay) * (i + 0.5) / m;
                if (x > x0 && x < x0 + side / 2 && y > y0 && y < y0 + side / 2)
                    l += s.len() / m;
            }
        }
        l /= side * side / 4;
        if (getenv("VH_MEASURE"))
            fprintf(stderr, "%s: %d %d: %f\n", name, k, (int)(mask >> k & 1), l * d);
        if (mask >> k & 1)
            least = std::min(least, l);
        else
            most = std::max(most, l);
    }
    vh::trans();
    if (least < 0.5 / d)
        return vh::fail("%s: only %.2f of the density where it is black", name, least * d);
    if (most > 0.6 * least)
        return vh::fail("%s: %.2f of the density of the black where it is white", name, most / least);
}
static void explore()
{
    auto& scene = world::fresh(1, 1);
    scene.mesh_groups[0].settings.setParent(&scene.settings);
    settings = &scene.settings;
    const Complex q = quads(3, 3);
    const bool th = vh::thorough();
    struct Place
    {
        i64 u;
        i64 tx, ty;
        bool skew;
    };
    const std::vector<Place> places = { { 3000, -4500, -4400, false }, { 2300, 83000, -61000, true }, { 3000, -90123, 40321, false } };
    auto embed = [&](const Place& p) -> Embed
    {
        if (p.skew)
            return { 2 * p.u / 2, p.u / 3, -p.u / 4, p.u, p.tx, p.ty, "skew" };
        return { p.u, 0, 0, p.u, p.tx, p.ty, "straight" };
    };
    // linear patterns
    for (size_t pl = 0; pl < places.size(); pl++)
        for (uint64_t m = 1; m < 512; m++)
        {
            if (! th && (m * 7 + pl) % 6 && ! rectangle(3, 3, m))
                continue;
            if (! unambiguous(3, 3, m))
                continue;
            const Shape s = toShape(trace(q, m, embed(places[pl])));
            for (int z : { 0, 1 })
            {
                if (vh::begin("linear place %zu image %llu%s", pl, (unsigned long long)m, z ? " connected" : ""))
                {
                    int n = 0;
                    for (EFillMethod p : LINEAR)
                        for (double a : { 0.0, 45.0, 90.0, 131.0 })
                            for (int k = 0; k < 4; k++)
                            {
                                n++;
                                if (! th && (n + m) % 4 != 0 && z)
                                    continue;
                                Opt o;
                                o.pattern = p;
                                o.name = nm(p);
                                o.angle = a;
                                o.zig = z;
                                if (k == 1)
                                    o.shift = 311, o.z = 700, o.d = 1100;
                                if (k == 2)
                                    o.shift = -777, o.overlap = 120, o.z = 2345, o.lw = 350;
                                if (k == 3)
                                    o.origin = { 1234, -4567 }, o.z = 12345, o.overlap = -60, o.d = 2000;
                                if (z)
                                    zigzagged(s, o, rectangle(3, 3, m) && ! places[pl].skew);
                                else
                                    linear(s, o);
                            }
                    if (z)
                        for (double a : { 0.0, 45.0, 90.0, 131.0 })
                            for (int k = 0; k < 7; k++)
                            {
                                Opt o;
                                o.pattern = EFillMethod::ZIG_ZAG;
                                o.name = "zigzag";
                                o.angle = a;
                                o.shift = k * 100;
                                o.connected = k == 1 || k == 3;
                                o.endpieces = k == 2 || k == 3;
                                o.skip = k >= 4;
                                o.zags = k == 4 ? 3 : k == 5 ? 5 : k;
                                if (k >= 4)
                                    o.d = 700;
                                zigzagged(s, o, rectangle(3, 3, m));
                            }
                }
            }
        }
    // curved patterns
    const std::vector<coord_t> ds = { 1200, 2000, 3000 };
    for (EFillMethod p : CURVED)
        for (coord_t d : ds)
            for (double a : { 0.0, 45.0, 30.0 })
                for (coord_t z : { 0, 200, 1000, 1700, 2500, 3300, 5100 })
                {
                    if (p != EFillMethod::GYROID && z > 0)
                        continue;
                    Opt o;
                    o.pattern = p;
                    o.name = nm(p);
                    o.d = d;
                    o.angle = a;
                    o.z = z;
                    o.lw = 400;
                    for (int pl = 0; pl < 4; pl++)
                    {
                        const i64 cx = pl == 0 ? 0 : pl == 1 ? 80000 : pl == 2 ? -70000 : 120000, cy = pl == 0 ? 0 : pl == 1 ? -50000 : pl == 2 ? 90000 : 130000;
                        if (vh::begin("%s field %d distance %lld angle %g z %lld", nm(p), pl, (i64)d, a, (i64)z))
                            field(o, cx, cy, p == EFillMethod::GYROID ? 0.93 : p == EFillMethod::HONEYCOMB ? 1.15 : 1.21, p == EFillMethod::GYROID ? 1.16 : 1.33, (p == EFillMethod::OCTAGON ? 0.9 : 1.0) * d, p == EFillMethod::GYROID ? 0 : o.lw - 10);
                    }
                }
    for (size_t pl = 0; pl < places.size(); pl++)
        for (uint64_t m = 1; m < 512; m++)
        {
            if (! th && (m * 5 + pl) % 12 && ! rectangle(3, 3, m))
                continue;
            if (! unambiguous(3, 3, m))
                continue;
            const Shape s = toShape(trace(q, m, embed(places[pl])));
            if (vh::begin("curved place %zu image %llu", pl, (unsigned long long)m))
            {
                int n = 0;
                for (EFillMethod p : CURVED)
                    for (int k = 0; k < 4; k++)
                        for (int z : { 0, 1 })
                        {
                            if (! th && ++n % 2 != (int)(m % 2))
                                continue;
                            Opt o;
                            o.pattern = p;
                            o.name = nm(p);
                            o.zig = z;
                            o.d = k == 1 ? 1200 : 2000;
                            o.z = k == 2 ? 1700 : k == 3 ? 600 : 0;
                            o.angle = k == 1 ? 45 : k == 3 ? 30 : 0;
                            o.overlap = k == 2 ? 100 : 0;
                            cutout(s, o);
                        }
            }
        }
    // several lines side by side, loops, and extra walls
    for (size_t pl = 0; pl < places.size(); pl++)
        for (uint64_t m = 1; m < 512; m++)
        {
            if (! th && (m * 11 + pl) % 8 && ! rectangle(3, 3, m))
                continue;
            if (! unambiguous(3, 3, m))
                continue;
            const Shape s = toShape(trace(q, m, embed(places[pl])));
            if (vh::begin("multiplied place %zu image %llu", pl, (unsigned long long)m))
                for (size_t mult = 2; mult <= 5; mult++)
                    for (double a : { 0.0, 45.0, 90.0, 131.0 })
                        for (int zig = 0; zig < 2; zig++)
                        {
                            Opt o;
                            o.name = zig ? "connected lines" : "lines";
                            o.zig = zig;
                            o.mult = mult;
                            o.angle = a;
                            o.d = 3200;
                            o.lw = 350;
                            o.shift = (coord_t)mult * 100;
                            o.overlap = mult == 3 ? 100 : 0;
                            multiplied(s, o);
                        }
            if (vh::begin("concentric place %zu image %llu", pl, (unsigned long long)m))
                for (coord_t d : { 400, 800, 1300 })
                    for (int k = 0; k < 2; k++)
                    {
                        Opt o;
                        o.name = "concentric";
                        o.pattern = EFillMethod::CONCENTRIC;
                        o.d = d;
                        o.overlap = k * 80;
                        o.small = k * 800;
                        concentric(s, o);
                    }
            if (vh::begin("walled place %zu image %llu", pl, (unsigned long long)m))
                for (size_t w = 1; w <= 3; w++)
                    for (int k = 0; k < 2; k++)
                    {
                        Opt o;
                        o.name = k ? "grid" : "lines";
                        o.pattern = k ? EFillMethod::GRID : EFillMethod::LINES;
                        o.walls = w;
                        o.angle = k ? 45 : 20;
                        o.lw = 300;
                        o.overlap = k * 50;
                        walled(s, o);
                    }
        }
    // cubic subdivision: stacks of two images, several of them after each other
    for (uint64_t m = 1; m < 512; m++)
    {
        if (! th && (m * 7) % 10 && ! rectangle(3, 3, m))
            continue;
        if (! unambiguous(3, 3, m))
            continue;
        for (int var = 0; var < 4; var++)
        {
            if (! th && (int)((m + m / 7) % 4) != var)
                continue;
            if (! vh::begin("cubic subdivision image %llu kind %d", (unsigned long long)m, var))
                continue;
            const Place& p = places[var % 3];
            const Paths A = trace(q, m, embed(p)), B = trace(q, var % 2 ? 511 : 16, embed(p)), none;
            std::vector<const Paths*> layers;
            for (int l = 0; l < 36; l++)
                layers.push_back(var == 3 && l < 6 ? &none : l < 20 ? &A : &B);
            std::vector<i64> heights;
            for (i64 z = 100 + 50 * var; z < 7200; z += th ? 200 : 800)
                heights.push_back(z);
            const Point2LL at(p.tx + 4000, p.ty + 3500);
            // the second and third must not be affected by the first
            const Stack one = stack(layers, 1200, var == 1 ? 1000 : 300, 0, at), two = stack(layers, 700, var == 2 ? 0 : 400, 45, at + Point2LL(1234, -4321)), three = stack(layers, 2000, -100, 30, Point2LL(0, 0) + at);
            subdivided(one, heights);
            subdivided(two, heights);
            subdivided(three, heights);
        }
    }
    for (i64 w : { 6000, 12000, 16900, 17100, 25000 })
        for (i64 h : { 5000, 14000, 24000 })
            for (coord_t d : { 1000, 1700, 3000 })
                for (coord_t lw : { 300, 400 })
                    for (coord_t pocket : { 0, 500, 1500 })
                        if (vh::begin("cross %lldx%lld distance %lld width %lld pocket %lld", w, h, (i64)d, (i64)lw, (i64)pocket))
                            crossFill(w * 3, -h * 2, w, h, th ? 12000 : 2500, d, lw, pocket);
    for (int n = 2; n <= 3; n++)
        for (uint64_t m = 1; m + 1 < 1ull << (n * n); m++)
            if (th || n == 2 || m % 16 == 1)
                if (vh::begin("cross from image %dx%d %llu", n, n, (unsigned long long)m))
                    crossImage(n, m, 800, 400);
}
int main(int argc, char** argv)
{
    return vh::main_(argc, argv, explore, 8);
}
