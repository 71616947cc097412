// C37: voxel walks against exact geometry of the cells.
#include "shapes.h"
#include "utils/AABB3D.h"
#include "utils/SpatialLookup.h"
#include "utils/VoxelGrid.h"
#include "utils/VoxelUtils.h"

using namespace cura;
using namespace vs;
namespace
{
using C3 = std::array<i64, 3>;
C3 c3(const Point3LL& p)
{
    return { p.x_, p.y_, p.z_ };
}
// the part of the line inside the box [lo - e, hi + e]: parameter length, or -1 when empty
double overlap(const C3& a, const C3& b, const double* lo, const double* hi, double e)
{
    double t0 = 0, t1 = 1;
    for (int d = 0; d < 3; d++)
    {
        const double l = lo[d] - e, h = hi[d] + e, v = (double)(b[d] - a[d]);
        if (v == 0)
        {
            if (a[d] < l || a[d] > h)
                return -1;
            if (e < 0 && (a[d] <= l || a[d] >= h))
                return -1;
            continue;
        }
        double u = (l - a[d]) / v, w = (h - a[d]) / v;
        if (u > w)
            std::swap(u, w);
        t0 = std::max(t0, u);
        t1 = std::min(t1, w);
    }
    return t1 - t0;
}
void box(const C3& cell, const C3& size, double* lo, double* hi)
{
    for (int d = 0; d < 3; d++)
    {
        lo[d] = (double)(cell[d] * size[d]);
        hi[d] = lo[d] + size[d];
    }
}
bool contains(const C3& cell, const C3& size, const C3& p)
{
    for (int d = 0; d < 3; d++)
        if (p[d] < cell[d] * size[d] || p[d] > (cell[d] + 1) * size[d])
            return false;
    return true;
}
void needed(const C3& a, const C3& b, const C3& size, std::set<C3>& out)
{
    C3 lo, hi;
    for (int d = 0; d < 3; d++)
    {
        lo[d] = (i64)std::floor((double)std::min(a[d], b[d]) / size[d]) - 1;
        hi[d] = (i64)std::floor((double)std::max(a[d], b[d]) / size[d]) + 1;
    }
    for (i64 x = lo[0]; x <= hi[0]; x++)
        for (i64 y = lo[1]; y <= hi[1]; y++)
            for (i64 z = lo[2]; z <= hi[2]; z++)
            {
                double l[3], h[3];
                const C3 c = { x, y, z };
                box(c, size, l, h);
                if (overlap(a, b, l, h, -1e-7) > 1e-9)
                    out.insert(c);
            }
}
bool touches(const C3& a, const C3& b, const C3& size, const C3& c)
{
    double l[3], h[3];
    box(c, size, l, h);
    return overlap(a, b, l, h, 1e-6) >= -1e-12;
}
void line(const VoxelUtils& vu, const C3& a, const C3& b, bool stops)
{
    const C3 size = c3(vu.cell_size_);
    std::vector<C3> got;
    const bool r = vu.walkLine(Point3LL(a[0], a[1], a[2]), Point3LL(b[0], b[1], b[2]), [&](GridPoint3 p) { got.push_back(c3(p)); return got.size() < 1000; });
    vh::trans(got.size());
#define L7 "line (%lld,%lld,%lld) (%lld,%lld,%lld): "
#define A7 a[0], a[1], a[2], b[0], b[1], b[2]
    if (! r)
        return vh::fail(L7 "does not end", A7);
    if (got.empty() || ! contains(got[0], size, a))
        return vh::fail(L7 "does not start in its first cell", A7);
    if (! contains(got.back(), size, b))
        return vh::fail(L7 "does not end in its last cell", A7);
    uint64_t h = 1;
    for (size_t i = 0; i < got.size(); i++)
    {
        h = vh::mix(h, vh::mix(got[i][0] * 1000 + got[i][1], got[i][2]));
        if (! touches(a, b, size, got[i]))
            return vh::fail(L7 "visits (%lld,%lld,%lld)", A7, got[i][0], got[i][1], got[i][2]);
        if (i)
        {
            i64 d = 0;
            for (int k = 0; k < 3; k++)
                d += std::llabs(got[i][k] - got[i - 1][k]);
            if (d != 1)
                return vh::fail(L7 "jumps", A7);
        }
    }
    vh::state(vh::mix(h, vh::mix(size[0] * 100 + size[1], size[2])));
    std::set<C3> need, have(got.begin(), got.end());
    if (have.size() != got.size())
        return vh::fail(L7 "visits a cell twice", A7);
    needed(a, b, size, need);
    need.insert(c3(vu.toGridPoint(Point3LL(a[0], a[1], a[2]))));
    int borders = 0; // an end on the border of several cells may be reached through any of them
    for (int d = 0; d < 3; d++)
        borders += b[d] % size[d] == 0;
    if (borders <= 1)
        need.insert(c3(vu.toGridPoint(Point3LL(b[0], b[1], b[2]))));
    for (const C3& c : need)
        if (! have.count(c))
            return vh::fail(L7 "misses (%lld,%lld,%lld)", A7, c[0], c[1], c[2]);
    if (stops)
        for (size_t k = 1; k <= got.size(); k++)
        {
            size_t n = 0;
            if (vu.walkLine(Point3LL(a[0], a[1], a[2]), Point3LL(b[0], b[1], b[2]), [&](GridPoint3) { return ++n < k; }) || n != k)
                return vh::fail(L7 "does not stop when told", A7);
        }
}
void outlines(const Paths& ps, const VoxelUtils& vu, i64 z)
{
    const C3 size = c3(vu.cell_size_);
    Shape s;
    for (const Path& p : ps)
    {
        Polygon q;
        for (P v : p)
            q.push_back(Point2LL(v.x, v.y));
        s.push_back(q);
    }
    std::set<C3> have, need;
    const bool r = vu.walkPolygons(s, z, [&](GridPoint3 p) { have.insert(c3(p)); return true; });
    if (! r)
        return vh::fail("walkPolygons stops by itself");
    size_t n = 0;
    if (! ps.empty() && (vu.walkPolygons(s, z, [&](GridPoint3) { return ++n < 3; }) || n != 3))
        return vh::fail("walkPolygons does not stop when told");
    std::vector<std::pair<C3, C3>> segs;
    for (const Path& p : ps)
        for (size_t i = 0; i < p.size(); i++)
        {
            const P a = p[i], b = p[(i + 1) % p.size()];
            segs.push_back({ C3{ a.x, a.y, z }, C3{ b.x, b.y, z } });
            needed(segs.back().first, segs.back().second, size, need);
        }
    vh::trans(have.size());
    uint64_t h = 7;
    for (const C3& c : have)
    {
        h = vh::mix(h, vh::mix(c[0] * 1000 + c[1], c[2]));
        bool t = false;
        for (auto& [a, b] : segs)
            t |= touches(a, b, size, c);
        if (! t)
            return vh::fail("walkPolygons visits (%lld,%lld,%lld)", c[0], c[1], c[2]);
    }
    vh::state(h);
    for (const C3& c : need)
        if (! have.count(c))
            return vh::fail("walkPolygons misses (%lld,%lld,%lld)", c[0], c[1], c[2]);
}
void area(const Paths& ps, const VoxelUtils& vu, i64 z)
{
    // cells whose centre lies inside
    const C3 size = c3(vu.cell_size_);
    Shape s;
    i64 x0 = 0, x1 = 0, y0 = 0, y1 = 0;
    for (const Path& p : ps)
    {
        Polygon q;
        for (P v : p)
        {
            q.push_back(Point2LL(v.x, v.y));
            x0 = std::min(x0, v.x), x1 = std::max(x1, v.x), y0 = std::min(y0, v.y), y1 = std::max(y1, v.y);
        }
        s.push_back(q);
    }
    std::map<C3, int> have;
    const bool r = vu.walkAreas(s, z, [&](GridPoint3 p) { have[c3(p)]++; return true; });
    if (! r)
        return vh::fail("walkAreas stops by itself");
    vh::trans(have.size());
    uint64_t h = 9;
    for (auto& [c, n] : have)
    {
        h = vh::mix(h, vh::mix(c[0] * 1000 + c[1], c[2]));
        if (n != 1)
            return vh::fail("walkAreas visits (%lld,%lld,%lld) %d times", c[0], c[1], c[2], n);
        if (c[2] * size[2] > z || (c[2] + 1) * size[2] < z)
            return vh::fail("walkAreas visits height %lld", c[2]);
    }
    vh::state(h);
    for (i64 cx = x0 / size[0] - 3; cx <= x1 / size[0] + 3; cx++)
        for (i64 cy = y0 / size[1] - 3; cy <= y1 / size[1] + 3; cy++)
        {
            // even-odd with a margin around the outline
            const double mx = (cx + .5) * size[0], my = (cy + .5) * size[1];
            bool in = false;
            double near = 1e18;
            for (const Path& p : ps)
                for (size_t i = 0; i < p.size(); i++)
                {
                    const P a = p[i], b = p[(i + 1) % p.size()];
                    if ((a.y <= my) != (b.y <= my) && mx < a.x + (double)(b.x - a.x) * (my - a.y) / (double)(b.y - a.y))
                        in = ! in;
                    const double vx = b.x - a.x, vy = b.y - a.y, t = std::clamp(((mx - a.x) * vx + (my - a.y) * vy) / (vx * vx + vy * vy), 0., 1.);
                    near = std::min(near, std::hypot(a.x + t * vx - mx, a.y + t * vy - my));
                }
            if (near < 5)
                continue;
            bool got = false;
            for (auto& [c, n] : have)
                got |= c[0] == cx && c[1] == cy;
            if (got != in)
                return vh::fail("walkAreas %s cell (%lld,%lld)", got ? "visits" : "misses", cx, cy);
        }
}
void kernel(int x, int y, int z, DilationKernel::Type t)
{
    const DilationKernel k(GridPoint3(x, y, z), t);
    std::set<C3> have;
    for (auto& c : k.relative_cells_)
        if (! have.insert(c3(c)).second)
            return vh::fail("kernel cell twice");
    const i64 n[3] = { x, y, z };
    for (i64 a = -x; a <= x; a++)
        for (i64 b = -y; b <= y; b++)
            for (i64 c = -z; c <= z; c++)
            {
                const i64 v[3] = { a, b, c };
                bool in = true;
                double sum = 0;
                for (int d = 0; d < 3; d++)
                {
                    const i64 lo = -(n[d] / 2), hi = n[d] - n[d] / 2 - 1;
                    in &= v[d] >= lo && v[d] <= hi;
                    const i64 lim = v[d] < 0 ? -lo : hi;
                    if (t == DilationKernel::Type::DIAMOND || (t == DilationKernel::Type::PRISM && d < 2))
                        sum += lim ? (double)std::llabs(v[d]) / lim : std::llabs(v[d]);
                }
                const double mult = x * y * z;
                const bool got = have.count({ a, b, c });
                if (got && (! in || sum > 1 + 3 / mult + 1e-9))
                    return vh::fail("kernel %dx%dx%d contains (%lld,%lld,%lld)", x, y, z, a, b, c);
                if (! got && in && sum <= 1 + 1e-9)
                    return vh::fail("kernel %dx%dx%d misses (%lld,%lld,%lld)", x, y, z, a, b, c);
                vh::trans();
            }
    // dilation: every visited cell with every cell of the kernel
    for (i64 c : { 10, 7 })
    {
        const VoxelUtils vu(Point3LL(c, c + 4, c + 2));
        Shape s;
        s.push_back(Polygon({ Point2LL(-13, -22), Point2LL(31, -3), Point2LL(8, 27) }, false));
        for (i64 zz : { -11, 0, 13 })
            for (int areas = 0; areas < 2; areas++)
            {
                std::set<C3> got;
                auto add = [&](GridPoint3 p) { got.insert(c3(p)); return true; };
                if (! (areas ? vu.walkDilatedAreas(s, zz, k, add) : vu.walkDilatedPolygons(s, zz, k, add)))
                    return vh::fail("dilated walk stops by itself");
                size_t m = 0;
                if ((areas ? vu.walkDilatedAreas(s, zz, k, [&](GridPoint3) { return ++m < 2; }) : vu.walkDilatedPolygons(s, zz, k, [&](GridPoint3) { return ++m < 2; })) || m != 2)
                    if (got.size() > 1)
                        return vh::fail("dilated walk does not stop when told");
                // an even kernel is centred by half a cell; with mixed parities the engine leaves x and y alone
                bool ok = false;
                for (int mode = 0; mode < 4 && ! ok; mode++)
                {
                    if (mode >= 2 && ! areas)
                        break;
                    Shape q = s;
                    const i64 tx = x % 2 ? 0 : (c) / 2, ty = y % 2 ? 0 : (c + 4) / 2, tz0 = z % 2 ? 0 : (c + 2) / 2;
                    // the height of dilated areas is half a cell too low (a known finding, decided by a case of its own)
                    const i64 tz = mode < 2 ? tz0 : z % 2 ? -((c + 2) / 2) : 0;
                    if (mode % 2 == 0)
                        q.translate(Point2LL(tx, ty));
                    else if ((x + y) % 2 == 0)
                        continue;
                    std::set<C3> base, want;
                    auto addb = [&](GridPoint3 p) { base.insert(c3(p)); return true; };
                    if (areas)
                        vu.walkAreas(q, zz + tz, addb);
                    else
                        vu.walkPolygons(q, zz + tz, addb);
                    for (const C3& p : base)
                        for (const C3& r : have)
                            want.insert({ p[0] + r[0], p[1] + r[1], p[2] + r[2] });
                    if (! areas)
                        ok = want == got;
                    else
                    {
                        // rounding of half cells may move a dot onto or off the outline: allow cells of dilated borders
                        std::set<C3> border;
                        vu.walkPolygons(q, zz + tz, [&](GridPoint3 p) { for (const C3& r : have) for (int i = -1; i < 2; i++) for (int j = -1; j < 2; j++) border.insert({ p.x_ + r[0] + i, p.y_ + r[1] + j, p.z_ + r[2] }); return true; });
                        ok = true;
                        for (const C3& p : want)
                            ok &= got.count(p) || border.count(p);
                        for (const C3& p : got)
                            ok &= want.count(p) || border.count(p);
                    }
                }
                if (! ok)
                    return vh::fail("dilation by %dx%dx%d type %d of %s at %lld with cell %lld is not the sum of both", x, y, z, (int)t, areas ? "areas" : "polygons", zz, c);
            }
    }
    vh::state(vh::mix(vh::mix(x * 100 + y * 10 + z, (int)t), have.size()));
}
// triangle against box, separating axes; positive: gap, negative: penetration
double triBox(const C3* t, const double* lo, const double* hi)
{
    double c[3], h[3], v[3][3], gap = -1e18;
    for (int d = 0; d < 3; d++)
    {
        c[d] = (lo[d] + hi[d]) / 2, h[d] = (hi[d] - lo[d]) / 2;
        for (int i = 0; i < 3; i++)
            v[i][d] = (double)t[i][d] - c[d];
    }
    auto axis = [&](double x, double y, double z)
    {
        const double n = std::sqrt(x * x + y * y + z * z);
        if (n < 1e-9)
            return;
        double mn = 1e18, mx = -1e18;
        for (int i = 0; i < 3; i++)
        {
            const double p = (v[i][0] * x + v[i][1] * y + v[i][2] * z) / n;
            mn = std::min(mn, p), mx = std::max(mx, p);
        }
        const double r = (std::fabs(x) * h[0] + std::fabs(y) * h[1] + std::fabs(z) * h[2]) / n;
        gap = std::max(gap, std::max(mn - r, -r - mx));
    };
    double e[3][3];
    for (int i = 0; i < 3; i++)
        for (int d = 0; d < 3; d++)
            e[i][d] = v[(i + 1) % 3][d] - v[i][d];
    for (int d = 0; d < 3; d++)
        axis(d == 0, d == 1, d == 2);
    axis(e[0][1] * e[1][2] - e[0][2] * e[1][1], e[0][2] * e[1][0] - e[0][0] * e[1][2], e[0][0] * e[1][1] - e[0][1] * e[1][0]);
    for (int i = 0; i < 3; i++)
    {
        axis(0, -e[i][2], e[i][1]);
        axis(e[i][2], 0, -e[i][0]);
        axis(-e[i][1], e[i][0], 0);
    }
    return gap;
}
void triangle(const VoxelGrid& g, const C3& org, const C3* t)
{
    Triangle3LL q;
    for (int i = 0; i < 3; i++)
        q[i] = Point3LL(t[i][0], t[i][1], t[i][2]);
    std::set<C3> have;
    for (auto& l : g.getTraversedVoxels(q))
        if (! have.insert({ l.position.x, l.position.y, l.position.z }).second)
            return vh::fail("voxel listed twice");
    vh::trans();
    const auto n = g.getSlicesCount();
    const auto res = g.getResolution();
    uint64_t hh = 3;
    for (i64 x = 0; x <= n.x_ + 1; x++)
        for (i64 y = 0; y <= n.y_ + 1; y++)
            for (i64 z = 0; z <= n.z_ + 1; z++)
            {
                const double lo[3] = { org[0] + x * res.x_, org[1] + y * res.y_, org[2] + z * res.z_ }, hi[3] = { lo[0] + res.x_, lo[1] + res.y_, lo[2] + res.z_ };
                const double gap = triBox(t, lo, hi);
                const bool got = have.count({ x, y, z });
                if (got)
                    hh = vh::mix(hh, x * 10000 + y * 100 + z);
                // crossings shorter than the engine's rounding may be dropped
                if (got ? gap > 25 : gap < -25)
                    return vh::fail("triangle (%lld,%lld,%lld) (%lld,%lld,%lld) (%lld,%lld,%lld) %s voxel (%lld,%lld,%lld), overlap %g", t[0][0], t[0][1], t[0][2], t[1][0], t[1][1], t[1][2], t[2][0],
                                    t[2][1], t[2][2], got ? "visits" : "misses", x, y, z, -gap);
                have.erase({ x, y, z });
            }
    if (! have.empty())
        return vh::fail("voxel outside the grid");
    vh::state(hh);
}
void explore()
{
    const bool T = vh::thorough();
    for (i64 c : { 1, 2, 3, 7, 10, 1000 })
    {
        if (! vh::begin("conversions %lld", c))
            continue;
        const VoxelUtils vu(Point3LL(c, c + 1, 3 * c));
        i64 prev = -1000000;
        for (i64 p = -5 * c - 3; p <= 5 * c + 3; p++)
        {
            vh::trans();
            const auto g = vu.toGridPoint(Point3LL(p, p, p));
            const auto lo = vu.toLowerCorner(g);
            for (int d = 0; d < 3; d++)
            {
                const i64 s = vu.cell_size_[d], v = c3(lo)[d];
                VH_CHECK(p >= v && p <= v + s && ((p % s == 0 && p < 0) || p < v + s), "%lld in cells of %lld lies in cell %lld from %lld", p, s, c3(g)[d], v);
                VH_CHECK(vu.toGridCoord(p, d) == c3(g)[d] && vu.toLowerCoord(c3(g)[d], d) == v, "conversion of one coordinate");
            }
            VH_CHECK(g.x_ >= prev, "cell number falls");
            prev = g.x_;
            const Polygon q = vu.toPolygon(g);
            VH_CHECK(q.size() == 4 && q.area() == (double)(c * (c + 1)) && q[0] == Point2LL(lo.x_, lo.y_), "polygon of a cell");
        }
    }
    // lines
    const i64 sizes[5][3] = { { 10, 10, 10 }, { 10, 7, 3 }, { 1, 2, 50 }, { 16, 5, 9 }, { 100, 30, 1000 } };
    const std::vector<i64> xs = T ? std::vector<i64>{ -30, -21, -20, -14, -10, -7, -1, 0, 3, 10, 17, 20, 30 } : std::vector<i64>{ -21, -20, -10, -3, 0, 5, 10, 23 };
    for (auto& s : sizes)
        for (size_t i = 0; i < xs.size(); i++)
            for (size_t j = 0; j < xs.size(); j++)
                for (size_t k = 0; k < xs.size(); k++)
                {
                    if (! vh::begin("line %lldx%lldx%lld %zu %zu %zu", s[0], s[1], s[2], i, j, k))
                        continue;
                    const VoxelUtils vu(Point3LL(s[0], s[1], s[2]));
                    for (size_t l = 0; l < xs.size() * xs.size() * xs.size() && ! vh::g.case_failed; l++)
                    {
                        if (s[0] == 1 && (l + i) % 5)
                            continue;
                        line(vu, { xs[i], xs[j], xs[k] }, { xs[l % xs.size()], xs[l / xs.size() % xs.size()], xs[l / xs.size() / xs.size()] }, l % 7 == 0);
                    }
                }
    // outlines and areas
    const Complex cx = quads(3, 3), tx = tris2(2, 2);
    for (int pass = 0; pass < 2; pass++)
        for (const Embed& e : embeds(60))
            for (int bits = 0; bits < (pass ? 256 : 512); bits++)
            {
                if (std::string(e.name) == "far" || ! vh::begin("outline %d %s %d", pass, e.name, bits))
                    continue;
                Embed f = e;
                f.tx = f.tx % 300 - 13, f.ty = f.ty % 300 + 11;
                const Paths ps = trace(pass ? tx : cx, bits, f);
                for (i64 c : { 40, 25 })
                    for (i64 z : { -7, 0, 31 })
                    {
                        const VoxelUtils vu(Point3LL(c, c == 40 ? 30 : 25, 20));
                        outlines(ps, vu, z);
                        area(ps, VoxelUtils(Point3LL(c == 25 ? 24 : c, 30, 20)), z);
                    }
            }
    for (int x = 1; x <= (T ? 6 : 4); x++)
        for (int y = 1; y <= (T ? 6 : 4); y++)
            for (int z = 1; z <= (T ? 6 : 4); z++)
                for (int t = 0; t < 3; t++)
                    if (vh::begin("kernel %d %d %d %d", x, y, z, t))
                        kernel(x, y, z, (DilationKernel::Type)t);
    for (i64 c : { 10, 25 })
        if (vh::begin("height of dilated areas %lld", c))
        {
            const VoxelUtils vu(Point3LL(c, c, c));
            const DilationKernel k(GridPoint3(1, 1, 1), DilationKernel::Type::CUBE);
            Shape s;
            s.push_back(Polygon({ Point2LL(-57, -57), Point2LL(58, -57), Point2LL(58, 58), Point2LL(-57, 58) }, false));
            for (i64 z = 0; z < 3 * c; z++)
            {
                std::set<C3> a, b;
                vu.walkAreas(s, z, [&](GridPoint3 p) { a.insert(c3(p)); return true; });
                vu.walkDilatedAreas(s, z, k, [&](GridPoint3 p) { b.insert(c3(p)); return true; });
                VH_CHECK(a == b, "dilating an area at height %lld by a single voxel visits height %lld instead of %lld", z, (*b.begin())[2], (*a.begin())[2]);
            }
        }
    // voxel grid of a box: conversions, neighbours, occupation
    for (i64 span : { 1000, 2999, 3000, 3001, 7777 })
        for (i64 res : { 1000, 700 })
            for (i64 o : { 0, -1234, 100000 })
            {
                if (! vh::begin("grid %lld %lld %lld", span, res, o))
                    continue;
                VoxelGrid g(AABB3D(Point3LL(o, o - 5, o + 9), Point3LL(o + span, o - 5 + 2 * span, o + 9 + 500)), res);
                const auto n = g.getSlicesCount();
                const C3 org = { o, o - 5, o + 9 };
                VH_CHECK(g.getResolution().x_ <= res && std::fabs(g.getResolution().x_ * n.x_ - span) < 1e-6 && std::fabs(g.getResolution().y_ * n.y_ - 2 * span) < 1e-6 && std::fabs(g.getResolution().z_ * n.z_ - 500) < 1e-6, "grid does not cover its box");
                for (int x = 0; x < n.x_; x++)
                    for (int y = 0; y < n.y_; y++)
                        for (int z = 0; z < n.z_; z++)
                        {
                            const VoxelGrid::LocalCoordinates l(x, y, z);
                            const auto p = g.toGlobalCoordinates(l), q = g.toGlobalCoordinates(l, false);
                            VH_CHECK(g.toLocalCoordinates(p) == l, "centre of a voxel lies in another");
                            VH_CHECK(std::fabs(p.x_ - q.x_ - g.getResolution().x_ / 2) < 1e-6 && std::fabs(q.x_ - org[0] - x * g.getResolution().x_) < 1e-6 && std::fabs(q.y_ - org[1] - y * g.getResolution().y_) < 1e-6 && std::fabs(q.z_ - org[2] - z * g.getResolution().z_) < 1e-6, "corner of a voxel");
                            std::set<C3> have;
                            for (auto& a : g.getVoxelsAround(l))
                                have.insert({ a.position.x, a.position.y, a.position.z });
                            size_t want = 0;
                            for (int i = -1; i < 2; i++)
                                for (int j = -1; j < 2; j++)
                                    for (int k = -1; k < 2; k++)
                                        if ((i || j || k) && x + i >= 0 && x + i < n.x_ && y + j >= 0 && y + j < n.y_ && z + k >= 0 && z + k < n.z_)
                                            want += have.count({ x + i, y + j, z + k }) ? 1 : 1000;
                            VH_CHECK(want == have.size(), "voxels around (%d,%d,%d)", x, y, z);
                            vh::trans();
                        }
            }
    // occupation and nearest lookup: all sequences of settings
    for (int a = 0; a < 27; a++)
        for (int b = 0; b < 27; b++)
        {
            if (! vh::begin("occupation %d %d", a, b))
                continue;
            for (int c = 0; c < 27 && ! vh::g.case_failed; c++)
                for (int m = 0; m < 8; m++)
                {
                    VoxelGrid g(AABB3D(Point3LL(-100, 20, 5), Point3LL(199, 319, 304)), 100);
                    std::map<int, int> ref;
                    const int seq[3] = { a, b, c };
                    for (int i = 0; i < 3; i++)
                    {
                        const VoxelGrid::LocalCoordinates l(seq[i] % 3, seq[i] / 3 % 3, seq[i] / 9);
                        const int ex = (i * 2 + m) % 3;
                        if (m >> i & 1)
                            g.setOccupation(l, ex), ref[seq[i]] = ex;
                        else
                            g.setOrUpdateOccupation(l, ex), ref[seq[i]] = ref.count(seq[i]) ? std::min(ref[seq[i]], ex) : ex;
                    }
                    const SpatialLookup lk = SpatialLookup::makeSpatialLookupFromVoxelGrid(g);
                    if (g.occupiedCount() != ref.size())
                        return vh::fail("count of occupied voxels");
                    for (int q = 0; q < 27; q++)
                    {
                        vh::trans();
                        const VoxelGrid::LocalCoordinates l(q % 3, q / 3 % 3, q / 9);
                        const auto o = g.getOccupation(l);
                        if (o.has_value() != (ref.count(q) > 0) || (o && *o != ref[q]) || g.hasOccupation(l) != o.has_value())
                            vh::fail("occupation of a voxel");
                        const auto at = g.toGlobalCoordinates(l, m % 2);
                        const auto f = lk.findClosestOccupation(at);
                        double best = 1e18, got = -1;
                        for (auto& [k, ex] : ref)
                        {
                            const auto p = g.toGlobalCoordinates(VoxelGrid::LocalCoordinates(k % 3, k / 3 % 3, k / 9));
                            const double d = std::hypot(p.x_ - at.x_, p.y_ - at.y_, p.z_ - at.z_);
                            best = std::min(best, d);
                            if (f && f->position.x_ == p.x_ && f->position.y_ == p.y_ && f->position.z_ == p.z_ && f->occupation == ex)
                                got = d;
                        }
                        if (! f || std::fabs(got - best) > 1e-6)
                            vh::fail("closest occupation at distance %g instead of %g", got, best);
                    }
                    uint64_t h = 11;
                    for (auto& [k, ex] : ref)
                        h = vh::mix(h, k * 4 + ex);
                    vh::state(h);
                }
        }
    // triangles through the voxel grid
    const int n = 3;
    for (int m = 0; m < 4; m++)
        for (int i = 0; i < n * n * n; i++)
            for (int j = i + 1; j < n * n * n; j++)
            {
                if (! vh::begin("triangle %d %d %d", m, i, j))
                    continue;
                const i64 u[4][3] = { { 2500, 2500, 2500 }, { 1999, 1499, 2999 }, { 4100, 900, 1700 }, { 7013, 5003, 300 } };
                const C3 org = { m * 1000 - 1500, -2000 * m, 37 * m };
                const VoxelGrid g(AABB3D(Point3LL(org[0], org[1], org[2]), Point3LL(org[0] + 2 * u[m][0], org[1] + 2 * u[m][1], org[2] + 2 * u[m][2])), T ? 700 : 1000);
                auto at = [&](int c) { return C3{ org[0] + c % n * u[m][0] + (c % n == 1 ? c * 7 : 0), org[1] + c / n % n * u[m][1] + (c / n % n == 1 ? c * 5 : 0), org[2] + c / n / n * u[m][2] }; };
                for (int k = 0; k < n * n * n && ! vh::g.case_failed; k++)
                {
                    if (k == i || k == j)
                        continue;
                    const C3 t[3] = { at(i), at(j), at(k) };
                    triangle(g, org, t);
                }
            }
}
} // namespace
int main(int argc, char** argv)
{
    return vh::main_(argc, argv, explore, 4);
}
