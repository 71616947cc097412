// C20: spatial grids on every small placement of points and lines around the origin x every query x cell sizes, against
// brute force over all stored elements.
#include "shapes.h"
#include "utils/SparseLineGrid.h"
#include "utils/SparsePointGrid.h"
#include "utils/SparsePointGridInclusive.h"
#include "utils/SpatialLookup.h"
#include "utils/SquareGrid.h"
#include "utils/VoxelGrid.h"

using namespace cura;
using namespace vs;

namespace
{
struct Loc
{
    Point2LL operator()(const std::pair<Point2LL, int>& e) const
    {
        return e.first;
    }
};
struct LineLoc
{
    std::pair<Point2LL, Point2LL> operator()(const std::pair<std::pair<Point2LL, Point2LL>, int>& e) const
    {
        return e.first;
    }
};
Point2LL pt(P p)
{
    return Point2LL(p.x, p.y);
}
// Does the segment pass the box by more than a micron (in its interior)?
bool crossesBox(P a, P b, double x0, double y0, double x1, double y1)
{
    double t0 = 0, t1 = 1;
    const double d[2] = { double(b.x - a.x), double(b.y - a.y) }, o[2] = { double(a.x), double(a.y) }, lo[2] = { x0, y0 }, hi[2] = { x1, y1 };
    for (int k = 0; k < 2; k++)
    {
        if (d[k] == 0)
        {
            if (o[k] < lo[k] || o[k] > hi[k])
                return false;
            continue;
        }
        double u = (lo[k] - o[k]) / d[k], v = (hi[k] - o[k]) / d[k];
        if (u > v)
            std::swap(u, v);
        t0 = std::max(t0, u);
        t1 = std::min(t1, v);
        if (t0 > t1)
            return false;
    }
    return true;
}
// real range of a cell in the truncating mapping: cell 0 is twice as wide
void range(i64 cell, i64 cs, double& lo, double& hi)
{
    lo = cell > 0 ? cell * cs : cell * cs - (cs - 1);
    hi = cell < 0 ? cell * cs : cell * cs + (cs - 1);
}
void lineCells(P a, P b, i64 cs)
{
    const SquareGrid g(cs);
    std::vector<std::pair<i64, i64>> seen;
    const bool r = g.processLineCells(
        std::make_pair(pt(a), pt(b)),
        [&](SquareGrid::GridPoint q)
        {
            seen.push_back({ q.X, q.Y });
            return seen.size() < 2000;
        });
    vh::trans();
    if (! r)
        return vh::fail("line (%lld,%lld)-(%lld,%lld) cell size %lld: the walk did not arrive", a.x, a.y, b.x, b.y, cs);
    const i64 ax = a.x / cs, ay = a.y / cs, bx = b.x / cs, by = b.y / cs;
    std::set<std::pair<i64, i64>> s(seen.begin(), seen.end());
    uint64_t h = cs;
    for (auto& c : s)
        h = vh::mix(vh::mix(h, c.first), c.second);
    vh::state(h);
    vh::outcome(s.size());
    for (i64 x = std::min(ax, bx) - 1; x <= std::max(ax, bx) + 1; x++)
        for (i64 y = std::min(ay, by) - 1; y <= std::max(ay, by) + 1; y++)
        {
            double x0, x1, y0, y1;
            range(x, cs, x0, x1);
            range(y, cs, y0, y1);
            // the points of the cell passed by the line, more than 1 micron away from the cell's border
            const bool must = crossesBox(a, b, x0 + 1, y0 + 1, x1 - 1, y1 - 1) || (x == ax && y == ay) || (x == bx && y == by);
            if (must && ! s.count({ x, y }))
                return vh::fail("line (%lld,%lld)-(%lld,%lld) cell size %lld: cell %lld,%lld is passed but not visited", a.x, a.y, b.x, b.y, cs, x, y);
        }
    for (auto& c : s)
    {
        double x0, x1, y0, y1;
        range(c.first, cs, x0, x1);
        range(c.second, cs, y0, y1);
        // the walk is allowed to be one cell fat
        if (! crossesBox(a, b, x0 - 2 * cs, y0 - 2 * cs, x1 + 2 * cs, y1 + 2 * cs))
            return vh::fail("line (%lld,%lld)-(%lld,%lld) cell size %lld: visited the far cell %lld,%lld", a.x, a.y, b.x, b.y, cs, c.first, c.second);
    }
    // every integer point of the line that is its exact point: found through its cell
    const i64 gx = std::llabs(b.x - a.x), gy = std::llabs(b.y - a.y), gg = std::max<i64>(1, std::__gcd(gx, gy));
    for (i64 i = 0; i <= gg; i++)
    {
        const P q{ a.x + (b.x - a.x) / gg * i, a.y + (b.y - a.y) / gg * i };
        const Point2LL c = g.toGridPoint(pt(q));
        if (! s.count({ c.X, c.Y }))
            return vh::fail("line (%lld,%lld)-(%lld,%lld) cell size %lld: its point (%lld,%lld) lies in an unvisited cell", a.x, a.y, b.x, b.y, cs, q.x, q.y);
    }
    // contiguous
    for (size_t i = 1; i < seen.size(); i++)
        if (std::llabs(seen[i].second - seen[i - 1].second) > 1)
            return vh::fail("line (%lld,%lld)-(%lld,%lld) cell size %lld: the walk jumps", a.x, a.y, b.x, b.y, cs);
    // stops when told to
    size_t calls = 0;
    const bool early = g.processLineCells(std::make_pair(pt(a), pt(b)), [&](SquareGrid::GridPoint) { return ++calls < 2; });
    if (calls != std::min<size_t>(2, seen.size()) || (seen.size() >= 2 && early))
        vh::fail("line walk goes on after being told to stop");
}
void nearby(const std::vector<P>& pts, i64 cs, const std::vector<P>& queries, const std::vector<i64>& radii)
{
    using E = std::pair<Point2LL, int>;
    SparsePointGrid<E, Loc> grid(cs, pts.size() % 2 ? 4 : 0);
    SparsePointGridInclusive<int> inc(cs);
    for (size_t i = 0; i < pts.size(); i++)
    {
        grid.insert({ pt(pts[i]), (int)i });
        inc.insert(pt(pts[i]), (int)i);
    }
    size_t n = 0;
    for (auto it = grid.begin(); it != grid.end(); ++it)
        n++;
    VH_CHECK(n == pts.size(), "the grid holds %zu of %zu elements", n, pts.size());
    for (const P& q : queries)
        for (i64 r : radii)
        {
            vh::trans();
            std::vector<int> count(pts.size(), 0), count2(pts.size(), 0);
            for (auto& e : grid.getNearby(pt(q), r))
                count[e.second]++;
            for (int v : inc.getNearbyVals(pt(q), r))
                count2[v]++;
            bool any = false;
            uint64_t h = 0;
            i64 best2 = -1;
            for (size_t i = 0; i < pts.size(); i++)
            {
                const i64 d2 = (pts[i].x - q.x) * (pts[i].x - q.x) + (pts[i].y - q.y) * (pts[i].y - q.y);
                const bool in = d2 <= r * r;
                any |= d2 < r * r;
                if (count[i] > 1 || count2[i] > 1 || (in && (! count[i] || ! count2[i])))
                    return vh::fail("cell size %lld: point (%lld,%lld) found %d/%d times within %lld of (%lld,%lld)", cs, pts[i].x, pts[i].y, count[i], count2[i], r, q.x, q.y);
                if (count[i] && (std::llabs(pts[i].x - q.x) > r + 2 * cs || std::llabs(pts[i].y - q.y) > r + 2 * cs))
                    return vh::fail("cell size %lld: point (%lld,%lld) found within %lld of (%lld,%lld)", cs, pts[i].x, pts[i].y, r, q.x, q.y);
                if (d2 < r * r && (best2 < 0 || d2 < best2))
                    best2 = d2;
                h = h * 3 + count[i];
            }
            vh::outcome(h);
            const E* a = grid.getAnyNearby(pt(q), r);
            bool shorter = false;
            for (auto& p : pts)
            {
                const i64 d2 = (p.x - q.x) * (p.x - q.x) + (p.y - q.y) * (p.y - q.y);
                shorter |= d2 <= r * r;
            }
            if (any && ! a)
                return vh::fail("cell size %lld: no point found within %lld of (%lld,%lld)", cs, r, q.x, q.y);
            if (a && vSize2(a->first - pt(q)) > r * r)
                return vh::fail("cell size %lld: a point farther than %lld from (%lld,%lld) was found", cs, r, q.x, q.y);
            for (unsigned veto = 0; veto < (1u << pts.size()); veto++)
            {
                i64 b2 = -1;
                for (size_t i = 0; i < pts.size(); i++)
                {
                    const i64 d2 = (pts[i].x - q.x) * (pts[i].x - q.x) + (pts[i].y - q.y) * (pts[i].y - q.y);
                    if (d2 < r * r && ! (veto >> i & 1) && (b2 < 0 || d2 < b2))
                        b2 = d2;
                }
                SparsePointGridInclusive<int>::Elem out(Point2LL(0, 0), -1);
                const bool f = inc.getNearest(pt(q), r, out, [&](const SparsePointGridInclusive<int>::Elem& e) { return ! (veto >> e.val & 1); });
                const i64 got = f ? vSize2(out.point - pt(q)) : -1;
                if (got != b2 || (f && (veto >> out.val & 1)))
                    return vh::fail("cell size %lld: nearest to (%lld,%lld) within %lld is at squared distance %lld, found %lld", cs, q.x, q.y, r, b2, got);
            }
        }
}
void lines(const std::vector<std::pair<P, P>>& ls, i64 cs, const std::vector<P>& queries, i64 r)
{
    using E = std::pair<std::pair<Point2LL, Point2LL>, int>;
    SparseLineGrid<E, LineLoc> grid(cs);
    for (size_t i = 0; i < ls.size(); i++)
        grid.insert({ { pt(ls[i].first), pt(ls[i].second) }, (int)i });
    for (const P& q : queries)
    {
        vh::trans();
        std::set<int> got;
        for (auto& e : grid.getNearby(pt(q), r))
            got.insert(e.second);
        for (size_t i = 0; i < ls.size(); i++)
        {
            // by more than the micron that the walk rounds
            if (dist(q, ls[i].first, ls[i].second) < r - 2 && ! got.count((int)i))
                return vh::fail("cell size %lld: line (%lld,%lld)-(%lld,%lld) not found within %lld of (%lld,%lld)", cs, ls[i].first.x, ls[i].first.y, ls[i].second.x, ls[i].second.y, r, q.x, q.y);
        }
        // crossing lines are found along a query line
        for (const P& z : queries)
        {
            std::set<int> g2;
            grid.processLine(std::make_pair(pt(q), pt(z)), [&](const E& e) { g2.insert(e.second); return true; });
            for (size_t i = 0; i < ls.size(); i++)
            {
                const P a = ls[i].first, b = ls[i].second;
                auto sg = [](i128 v) { return v > 0 ? 1 : v < 0 ? -1 : 0; };
                // proper crossings at a point of the lattice only need exact cells
                bool must = false;
                const i64 gg = std::max<i64>(1, std::__gcd(std::llabs(b.x - a.x), std::llabs(b.y - a.y)));
                for (i64 t = 0; t <= gg; t++)
                {
                    const P u{ a.x + (b.x - a.x) / gg * t, a.y + (b.y - a.y) / gg * t };
                    if (onSegment(u, q, z))
                    {
                        const i64 gq = std::max<i64>(1, std::__gcd(std::llabs(z.x - q.x), std::llabs(z.y - q.y)));
                        (void)gq;
                        must = true;
                    }
                }
                (void)sg;
                if (must && ! g2.count((int)i))
                    return vh::fail("cell size %lld: line (%lld,%lld)-(%lld,%lld) not found along (%lld,%lld)-(%lld,%lld)", cs, a.x, a.y, b.x, b.y, q.x, q.y, z.x, z.y);
            }
        }
    }
}
void explore()
{
    const bool T = vh::thorough();
    // (1) cells along lines: all pairs of points on a lattice around the origin
    for (i64 cs : { 4, 7, 10, 13 })
    {
        const int R = T ? 26 : 17;
        for (i64 ax = -R; ax <= R; ax++)
            for (i64 ay = -R; ay <= R; ay++)
            {
                if (! vh::begin("line cells size %lld from %lld,%lld", cs, ax, ay))
                    continue;
                for (i64 bx = -R; bx <= R; bx++)
                    for (i64 by = -R; by <= R && ! vh::g.case_failed; by++)
                        lineCells({ ax, ay }, { bx, by }, cs);
            }
    }
    // larger numbers: realistic cell sizes, far from the origin
    {
        const std::vector<i64> c = { -1234567, -500001, -500000, -499999, -1000, -1, 0, 1, 250, 999, 500000, 1000001, 1234500 };
        for (i64 cs : { 500, 1000, 50000 })
            for (i64 ax : c)
                for (i64 ay : c)
                {
                    if (! vh::begin("long lines size %lld from %lld,%lld", cs, ax, ay))
                        continue;
                    for (i64 dx : { -20001, -5000, -999, -3, 0, 1, 500, 1000, 4999, 30000 })
                        for (i64 dy : { -17000, -4999, -1000, -1, 0, 2, 500, 1001, 5000, 22222 })
                            if (cs < 50000 || true)
                                lineCells({ ax, ay }, { ax + dx, ay + dy }, cs);
                }
    }
    // (2) points: all placements of up to 2 (3) points on a lattice, all queries, radii
    for (i64 cs : { 3, 5, 8 })
    {
        std::vector<P> lat, qs;
        for (i64 x = -9; x <= 9; x += 3)
            for (i64 y = -9; y <= 9; y += 3)
                lat.push_back({ x, y });
        for (i64 x = -10; x <= 10; x += T ? 2 : 4)
            for (i64 y = -10; y <= 10; y += T ? 2 : 4)
                qs.push_back({ x, y });
        for (size_t i = 0; i < lat.size(); i++)
            for (size_t j = i; j < lat.size(); j++)
            {
                if (! vh::begin("points size %lld %zu %zu", cs, i, j))
                    continue;
                nearby({ lat[i] }, cs, qs, { 0, 1, 3, 5, 12 });
                nearby({ lat[i], lat[j] }, cs, qs, { 1, 4, 5, 9 });
                for (size_t k = j; k < lat.size() && ! vh::g.case_failed; k += T ? 2 : 5)
                    nearby({ lat[i], lat[j], lat[k] }, cs, qs, { 4, 7 });
            }
    }
    // (3) lines: all placements of one and two lines
    for (i64 cs : { 4, 6, 11 })
    {
        std::vector<P> lat, qs;
        for (i64 x = -12; x <= 12; x += 6)
            for (i64 y = -12; y <= 12; y += 6)
                lat.push_back({ x, y });
        for (i64 x = -14; x <= 14; x += 7)
            for (i64 y = -14; y <= 14; y += 7)
                qs.push_back({ x, y });
        for (size_t i = 0; i < lat.size(); i++)
            for (size_t j = 0; j < lat.size(); j++)
            {
                if (! vh::begin("lines size %lld %zu %zu", cs, i, j))
                    continue;
                for (i64 r : { 3, 6, 10 })
                    lines({ { lat[i], lat[j] }, { lat[j], lat[(i * 3 + 1) % lat.size()] } }, cs, qs, r);
                for (i64 r : { 3, 8 })
                    lines({ { lat[i], lat[j] } }, cs, lat, r);
            }
    }
}
} // namespace
int main(int argc, char** argv)
{
    return vh::main_(argc, argv, explore, 16);
}
