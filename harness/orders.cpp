// C22: every small set of paths, every precedence order on them and every setting through PathOrderOptimizer.
// C23: every arrangement of parallel lines on a few rows, and every set of lattice lines, through PathOrderMonotonic.
#include "PathOrderMonotonic.h"
#include "PathOrderOptimizer.h"
#include "geometry/OpenPolyline.h"
#include "geometry/Polygon.h"
#include "shapes.h"
#include "vh.h"
#include <memory>
#include <numeric>

using namespace cura;
namespace
{
using PP = const Polyline*;
struct Item
{
    std::vector<Point2LL> pts;
    bool closed;
};
// the objects of one case, laid out in memory in a given order with a given padding between them
struct Pool
{
    std::vector<std::unique_ptr<Polyline>> obj;
    std::vector<std::unique_ptr<char[]>> pad;
    Pool(const std::vector<Item>& items, int layout)
    {
        obj.resize(items.size());
        std::vector<size_t> idx(items.size());
        std::iota(idx.begin(), idx.end(), 0);
        if (layout & 1)
            std::reverse(idx.begin(), idx.end());
        if (layout & 2 && idx.size() > 2)
            std::rotate(idx.begin(), idx.begin() + 1, idx.end());
        for (size_t k = 0; k < idx.size(); k++)
        {
            pad.emplace_back(new char[16 + layout * 104 * (k + 1)]);
            const Item& it = items[idx[k]];
            if (it.closed)
            {
                auto p = std::make_unique<Polygon>(false);
                for (const auto& q : it.pts)
                    p->push_back(q);
                obj[idx[k]] = std::move(p);
            }
            else
            {
                auto p = std::make_unique<OpenPolyline>();
                for (const auto& q : it.pts)
                    p->push_back(q);
                obj[idx[k]] = std::move(p);
            }
        }
    }
};
struct Out
{
    size_t idx, start;
    bool closed, back;
    bool operator==(const Out& o) const
    {
        return idx == o.idx && start == o.start && closed == o.closed && back == o.back;
    }
};
double len(const Item& it)
{
    double s = 0;
    for (size_t i = 0; i + 1 < it.pts.size() + (it.closed ? 1 : 0); i++)
        s += std::hypot((double)(it.pts[(i + 1) % it.pts.size()].X - it.pts[i].X), (double)(it.pts[(i + 1) % it.pts.size()].Y - it.pts[i].Y));
    return s;
}
coord_t d2(const Point2LL& a, const Point2LL& b)
{
    return (a.X - b.X) * (a.X - b.X) + (a.Y - b.Y) * (a.Y - b.Y);
}
// exactly once, same points, valid start: common to both orderings
template<class PO>
bool collect(const PO& paths, const std::vector<Item>& items, const Pool& pool, bool detect, bool detect3, std::vector<Out>& out)
{
    std::vector<int> seen(items.size());
    for (const auto& p : paths)
    {
        size_t i = 0;
        while (i < items.size() && pool.obj[i].get() != p.vertices_)
            i++;
        if (i == items.size() || seen[i]++)
        {
            vh::fail("path %zu is printed more than once, or is not one of the input", i);
            return false;
        }
        if (p.converted_ != p.vertices_ || std::vector<Point2LL>(p.converted_->begin(), p.converted_->end()) != items[i].pts)
        {
            vh::fail("the points of path %zu changed", i);
            return false;
        }
        const size_t n = items[i].pts.size();
        bool closed = items[i].closed;
        if (! closed && detect && n && (! detect3 || n >= 3))
            closed = d2(items[i].pts.front(), items[i].pts.back()) < 100;
        if (p.is_closed_ != closed)
        {
            vh::fail("path %zu is taken as %s", i, closed ? "open" : "closed");
            return false;
        }
        if (n && p.start_vertex_ >= n)
        {
            vh::fail("path %zu of %zu points starts at point %zu", i, n, p.start_vertex_);
            return false;
        }
        if (n > 1 && ! closed && p.start_vertex_ != 0 && p.start_vertex_ != n - 1)
        {
            vh::fail("open path %zu of %zu points starts at point %zu", i, n, p.start_vertex_);
            return false;
        }
        out.push_back({ i, n ? p.start_vertex_ : 0, p.is_closed_, p.backwards_ });
    }
    if (out.size() != items.size())
    {
        vh::fail("%zu paths of %zu are printed", out.size(), items.size());
        return false;
    }
    return true;
}
uint64_t sig(const std::vector<Out>& o)
{
    uint64_t h = o.size();
    for (const Out& x : o)
        h = vh::mix(h, x.idx * 4096 + x.start * 4 + x.closed * 2 + x.back);
    return h;
}

// ---------------------------------------------------------------- C22
struct Conf
{
    Point2LL start{ 0, 0 };
    ZSeamConfig seam;
    bool detect = false, reverse = false, group = false, shortest_inner = false, longest = false;
    const Shape* boundary = nullptr;
    Shape disallowed, overhang;
    std::vector<std::pair<int, int>> req;
    unsigned outer = 0; // which paths are outer walls
    int force = -1; // forced start index of the closed paths
};
bool run22(const std::vector<Item>& items, const Conf& c, int layout, std::vector<Out>& out)
{
    Pool pool(items, layout);
    std::unordered_multimap<PP, PP> req;
    for (auto [a, b] : c.req)
        req.emplace(pool.obj[a].get(), pool.obj[b].get());
    PathOrderOptimizer<PP> po(c.start, c.seam, c.detect, c.boundary, c.reverse, req, c.group, c.disallowed, c.shortest_inner, c.overhang, nullptr, c.longest);
    if (layout)
        po.paths_.reserve(items.size() + layout * 3);
    for (size_t i = 0; i < items.size(); i++)
        if (items[i].closed)
            po.addPolygon(pool.obj[i].get(), c.force >= 0 ? std::make_optional<size_t>(c.force % items[i].pts.size()) : std::nullopt, c.outer >> i & 1);
        else
            po.addPolyline(pool.obj[i].get());
    po.optimize();
    return collect(po.paths_, items, pool, c.detect, false, out);
}
// start and end of a path printed in the given way
Point2LL entry(const Item& it, const Out& o)
{
    return it.pts[o.start];
}
Point2LL leave(const Item& it, const Out& o)
{
    return o.closed ? it.pts[o.start] : it.pts[it.pts.size() - 1 - o.start];
}
void check22(const std::vector<Item>& items, const Conf& c, bool nearest)
{
    std::vector<Out> out;
    if (! run22(items, c, 0, out))
        return;
    for (int layout = 1; layout < 4; layout++)
    {
        std::vector<Out> o2;
        if (! run22(items, c, layout, o2))
            return;
        if (c.seam.type_ != EZSeamType::RANDOM && o2 != out)
        {
            vh::fail("the result depends on where the paths lie in memory (layout %d)", layout);
            return;
        }
    }
    vh::trans();
    vh::state(sig(out));
    // precedence
    std::vector<size_t> pos(items.size());
    for (size_t k = 0; k < out.size(); k++)
        pos[out[k].idx] = k;
    for (auto [a, b] : c.req)
        if (pos[a] > pos[b])
        {
            vh::fail("path %d has to come before path %d", a, b);
            return;
        }
    if (c.group && ! c.req.empty())
    {
        // outer walls (without predecessors, or without successors when reversed) come as one group first (last)
        std::vector<bool> inner(items.size());
        for (auto [a, b] : c.req)
            inner[c.reverse ? a : b] = true;
        for (size_t k = 0; k + 1 < out.size(); k++)
            if (inner[out[k].idx] != inner[out[k + 1].idx] && inner[out[k].idx] != c.reverse)
            {
                vh::fail("outer walls are not printed as one group");
                return;
            }
    }
    // direction of open paths
    const bool reversed = c.reverse && c.req.empty();
    for (const Out& o : out)
        if (! o.closed && items[o.idx].pts.size() > 1 && ! c.longest && o.back != (o.start != 0))
        {
            vh::fail("open path %zu starts at point %zu but is marked as printed %s", o.idx, o.start, o.back ? "backwards" : "forwards");
            return;
        }
    if (! nearest)
        return;
    // undo the reversal, then every path is the nearest of those left
    std::vector<Out> w = out;
    if (reversed)
    {
        std::reverse(w.begin(), w.end());
        for (Out& o : w)
            if (! o.closed && ! items[o.idx].pts.empty())
                o.start = items[o.idx].pts.size() - 1 - o.start;
    }
    Point2LL cur = c.start;
    for (size_t k = 0; k < w.size(); k++)
    {
        const Item& it = items[w[k].idx];
        auto best = [&](size_t idx, const Out& as)
        {
            const Item& x = items[idx];
            coord_t b = std::numeric_limits<coord_t>::max();
            if (as.closed && c.seam.type_ == EZSeamType::USER_SPECIFIED)
                return d2(cur, x.pts[as.start]); // seam position given in advance
            for (size_t i = 0; i < x.pts.size(); i++)
                if (as.closed || i == 0 || i + 1 == x.pts.size())
                    b = std::min(b, d2(cur, x.pts[i]));
            return b;
        };
        bool any = false;
        coord_t m = std::numeric_limits<coord_t>::max();
        double longest = 0;
        for (size_t j = k; j < w.size(); j++)
            if (! items[w[j].idx].pts.empty())
            {
                m = std::min(m, best(w[j].idx, w[j]));
                longest = std::max(longest, len(items[w[j].idx]));
                any = true;
            }
        if (it.pts.empty())
        {
            if (any && ! (k == 0 && c.longest && longest == 0))
            {
                vh::fail("an empty path comes before one with points");
                return;
            }
            continue;
        }
        const coord_t d = d2(cur, entry(it, w[k]));
        if (k == 0 && c.longest)
        {
            if (m > 40 * 40 && len(it) < longest - 1)
            {
                vh::fail("starts with a path of %.0f while there is one of %.0f", len(it), longest);
                return;
            }
        }
        else if (d > std::max(m, (coord_t)40 * 40) && std::none_of(it.pts.begin(), it.pts.end(), [&](const Point2LL& q) { return d2(cur, q) < 40 * 40; })) // touching paths go first
        {
            vh::fail("step %zu travels to path %zu over %.0f while %.0f suffices", k, w[k].idx, std::sqrt((double)d), std::sqrt((double)m));
            return;
        }
        cur = leave(it, w[k]);
    }
}
std::vector<Item> catalogue()
{
    const coord_t U = 5000;
    auto L = [&](std::vector<std::pair<int, int>> v, bool closed)
    {
        Item it;
        it.closed = closed;
        for (auto [x, y] : v)
            it.pts.emplace_back(x * U / 4, y * U / 4);
        return it;
    };
    std::vector<Item> r{
        L({ { 0, 0 }, { 4, 0 } }, false), L({ { 4, 0 }, { 8, 0 } }, false), L({ { 0, 4 }, { 0, 8 } }, false),         L({ { 0, 8 }, { 4, 8 }, { 4, 4 } }, false),
        L({ { 9, 9 }, { 1, 1 } }, false), L({ { 4, 4 }, { 8, 4 } }, false), L({ { 0, 0 }, { 8, 0 }, { 8, 8 } }, true), L({ { 2, 2 }, { 6, 2 }, { 6, 6 }, { 2, 6 } }, true),
        L({ { 8, 8 }, { 8, 9 }, { 9, 9 } }, true), L({ { 4, 4 } }, true),                                             L({ { 8, 0 } }, false),
        L({ { 0, 4 }, { 8, 4 } }, true),
    };
    Item loop = L({ { 3, 9 }, { 5, 9 }, { 5, 7 }, { 3, 9 } }, false);
    loop.pts.back().X += 9;
    r.push_back(loop);
    loop.pts.back().X += 1;
    r.push_back(loop);
    Item nearby = L({ { 4, 0 }, { 4, -4 } }, false);
    nearby.pts.front().Y -= 7; // almost touches two others
    r.push_back(nearby);
    r.push_back(Item{ {}, true });
    return r;
}
const EZSeamCornerPrefType prefs[4] = { EZSeamCornerPrefType::Z_SEAM_CORNER_PREF_INNER,
                                        EZSeamCornerPrefType::Z_SEAM_CORNER_PREF_OUTER,
                                        EZSeamCornerPrefType::Z_SEAM_CORNER_PREF_ANY,
                                        EZSeamCornerPrefType::Z_SEAM_CORNER_PREF_WEIGHTED };
// reference for the corner score of a vertex: angle between the points 1 mm along the outline on either side
double corner(const std::vector<Point2LL>& p, size_t i, int pref)
{
    const size_t n = p.size();
    double total = 0;
    for (size_t k = 0; k < n; k++)
        total += std::sqrt((double)d2(p[k], p[(k + 1) % n]));
    const double want = std::min(1000., total / 2);
    auto walk = [&](int dir)
    {
        double left = want;
        size_t k = i;
        while (true)
        {
            const size_t nx = (k + n + dir) % n;
            const double s = std::sqrt((double)d2(p[k], p[nx]));
            if (s >= left)
                return std::pair<double, double>(p[k].X + (p[nx].X - p[k].X) * left / s, p[k].Y + (p[nx].Y - p[k].Y) * left / s);
            left -= s;
            k = nx;
        }
    };
    const auto [ax, ay] = walk(-1);
    const auto [bx, by] = walk(1);
    // left angle from previous via here to next
    const double px = ax - p[i].X, py = ay - p[i].Y, qx = bx - p[i].X, qy = by - p[i].Y;
    double ang = std::atan2(px * qy - py * qx, px * qx + py * qy); // from previous to next, counter-clockwise
    if (ang < 0)
        ang += 2 * M_PI;
    // the engine's angle is that on the left-hand side of the path: a straight line has 180 degrees, a left turn less
    double left = 2 * M_PI - ang;
    if (ang == 0)
        left = 0;
    const double a = (left - M_PI) / M_PI; // < 0 concave?  sign checked against the documented meaning below
    switch (pref)
    {
    case 0:
        return (1 - a) / 2;
    case 1:
        return (a + 1) / 2;
    case 2:
        return std::fabs(a);
    default:
        return a < 0 ? -a : a / 2;
    }
}
void seamCase(const std::vector<Point2LL>& poly, const Conf& c, int pref)
{
    std::vector<Item> items{ { poly, true } };
    std::vector<Out> out;
    if (! run22(items, c, 0, out))
        return;
    vh::trans();
    const size_t s = out[0].start, n = poly.size();
    vh::state(vh::mix(sig(out), vh::hash(poly.data(), poly.size() * sizeof(Point2LL))));
    auto dis = [&](size_t i) { return ! c.disallowed.empty() && c.disallowed.inside(poly[i], true); };
    if (! c.disallowed.empty())
    {
        bool all = true;
        for (size_t i = 0; i < n; i++)
            all = all && dis(i);
        if (! all && dis(s))
            vh::fail("the seam lies in an area where it is not allowed");
        return; // which of the others is taken is not specified
    }
    std::vector<std::array<double, 3>> sc(n);
    coord_t mx = poly[0].X, my = poly[0].Y;
    for (const auto& q : poly)
        mx = std::max(mx, q.X), my = std::max(my, q.Y);
    const Point2LL target = c.seam.type_ == EZSeamType::USER_SPECIFIED ? c.seam.pos_ : c.start;
    for (size_t i = 0; i < n; i++)
    {
        const double over = ! c.overhang.empty() && ! c.overhang.inside(poly[i], true) ? 2 : 0;
        if (c.force >= 0)
            sc[i] = { over + 1 / (1 + std::sqrt((double)d2(poly[i], poly[c.force % n])) / 1000.), 0, 0 };
        else if (c.seam.type_ == EZSeamType::SHARPEST_CORNER)
            sc[i] = { over + corner(poly, i, pref), 1 / (1 + (my - poly[i].Y) / 1000.), 1 / (1 + (mx - poly[i].X) / 1000.) };
        else
            sc[i] = { over - std::sqrt((double)d2(poly[i], target)) * 1e-7, 0, 0 }; // order of distances
    }
    const bool sharp = c.seam.type_ == EZSeamType::SHARPEST_CORNER && c.force < 0;
    double best = -1e9;
    for (auto& x : sc)
        best = std::max(best, x[0]);
    if (! sharp)
    {
        // a distance criterion; with the weight of overhangs first
        for (size_t i = 0; i < n; i++)
            if (sc[i][0] > sc[s][0] + 1e-9)
            {
                vh::fail("the seam is at point %zu while point %zu is better (%.9f, %.9f)", s, i, sc[s][0], sc[i][0]);
                return;
            }
        return;
    }
    const double tol = .004; // rounding of the points 1 mm away
    if (sc[s][0] < best - .05 - tol)
    {
        if (vh::g.only_mode)
        {
            PointsSet ps(poly);
            CornerScoringCriterion c2(ps, prefs[pref]);
            for (size_t i = 0; i < n; i++)
                fprintf(stderr, "%lld,%lld mine %f engine %f\n", (long long)poly[i].X, (long long)poly[i].Y, sc[i][0], c2.computeScore(i));
        }
        vh::fail("the seam is at point %zu with corner score %.4f while the best has %.4f (corner preference %d, size %lld)", s, sc[s][0], best, pref, (long long)(mx - poly[0].X));
        return;
    }
    double ybest = -1;
    for (size_t i = 0; i < n; i++)
        if (sc[i][0] > best - .05 + tol)
            ybest = std::max(ybest, sc[i][1]);
    if (sc[s][1] < ybest - .01 - 1e-9)
    {
        vh::fail("of equally sharp corners point %zu is taken, which is not the backmost", s);
        return;
    }
    double xbest = -1, ymax = -1;
    for (size_t i = 0; i < n; i++)
        if (sc[i][0] > best - .05 - tol)
            ymax = std::max(ymax, sc[i][1]); // any that might have been in the running
    for (size_t i = 0; i < n; i++)
        if (sc[i][0] > best - .05 + tol && sc[i][1] > ymax - .01 + 1e-9)
            xbest = std::max(xbest, sc[i][2]);
    if (sc[s][2] < xbest - 1e-9)
        vh::fail("of equally sharp corners equally far back point %zu is taken, which is not the rightmost", s);
}
void explore22()
{
    const bool T = vh::thorough();
    const std::vector<Item> cat = catalogue();
    const int K = (int)cat.size();
    Shape boundary;
    boundary.push_back(Polygon({ Point2LL(-2000, -2000), Point2LL(12000, -2000), Point2LL(12000, 12000), Point2LL(-2000, 12000) }, false));
    boundary.push_back(Polygon({ Point2LL(2500, 1500), Point2LL(2500, 4000), Point2LL(3500, 4000), Point2LL(3500, 1500) }, false));
    const std::vector<Point2LL> starts{ { 0, 0 }, { 5000, 2500 }, { 20000, -3000 } };
    // --- all sequences of up to 3 (thorough 4) paths
    const int maxk = T ? 4 : 3;
    for (int k = 1; k <= maxk; k++)
    {
        int total = 1;
        for (int i = 0; i < k; i++)
            total *= K;
        for (int code = 0; code < total; code++)
        {
            if (! vh::begin("paths %d %d", k, code))
                continue;
            std::vector<Item> items;
            for (int i = 0, cc = code; i < k; i++, cc /= K)
                items.push_back(cat[cc % K]);
            for (size_t st = 0; st < starts.size() && ! vh::g.case_failed; st++)
                for (int m = 0; m < 16 && ! vh::g.case_failed; m++)
                    for (int seam = 0; seam < 4 && ! vh::g.case_failed; seam++)
                    {
                        if ((m & 4) && (st != 1 || seam > 1)) // with a boundary
                            continue;
                        if (k == 4 && (seam > 1 || st == 2))
                            continue;
                        Conf c;
                        c.start = starts[st];
                        c.detect = m & 1;
                        c.reverse = m & 2;
                        c.boundary = m & 4 ? &boundary : nullptr;
                        c.longest = m & 8;
                        const EZSeamType types[4] = { EZSeamType::SHORTEST, EZSeamType::USER_SPECIFIED, EZSeamType::SHARPEST_CORNER, EZSeamType::RANDOM };
                        c.seam = ZSeamConfig(types[seam], Point2LL(7000, 9000), prefs[code % 4]);
                        check22(items, c, ! c.boundary && seam < 2);
                    }
            if (vh::g.case_failed)
                vh::note("failed");
        }
    }
    // --- all precedence orders on up to 4 (thorough 5) paths
    const int maxn = T ? 5 : 4;
    for (int n = 2; n <= maxn; n++)
    {
        const int E = n * (n - 1) / 2;
        for (int dag = 1; dag < 1 << E; dag++)
            for (int geo = 0; geo < 4; geo++)
            {
                if (! vh::begin("order n%d dag%d geo%d", n, dag, geo))
                    continue;
                std::vector<int> perm(n);
                std::iota(perm.begin(), perm.end(), 0);
                int pc = 0;
                do
                {
                    if (n == 5 && pc++ % 3)
                        continue;
                    std::vector<Item> items(n);
                    for (int i = 0; i < n; i++)
                    {
                        const int w = perm[i];
                        if (geo == 0) // nested squares
                            items[i] = { { { -1000 * (w + 1), -1000 * (w + 1) }, { 1000 * (w + 1), -1000 * (w + 1) }, { 1000 * (w + 1), 1000 * (w + 1) }, { -1000 * (w + 1), 1000 * (w + 1) } }, true };
                        else if (geo == 1) // squares in a row
                            items[i] = { { { 3000 * w, 0 }, { 3000 * w + 1000, 0 }, { 3000 * w + 1000, 1000 }, { 3000 * w, 1000 } }, true };
                        else if (geo == 2) // equally far in four directions (ties), open
                            items[i] = { { { (w & 1 ? -1 : 1) * 1000, (w & 2 ? -1 : 1) * (w & 4 ? 2000 : 1000) }, { (w & 1 ? -1 : 1) * 3000, (w & 2 ? -1 : 1) * 3000 } }, false };
                        else // identical closed and open paths
                            items[i] = { { { 0, 0 }, { 1000, 0 }, { 1000, 1000 } }, w % 2 == 0 };
                    }
                    for (int m = 0; m < 16 && ! vh::g.case_failed; m++)
                    {
                        Conf c;
                        c.group = m & 1;
                        c.reverse = m & 2;
                        c.longest = (m & 4) && geo == 0;
                        if ((m & 4) && geo != 0)
                            continue;
                        c.shortest_inner = m & 8;
                        c.outer = (unsigned)dag;
                        c.start = Point2LL(0, 0);
                        c.seam = m & 8 ? ZSeamConfig(EZSeamType::SHARPEST_CORNER) : ZSeamConfig();
                        int b = 0;
                        for (int i = 0; i < n; i++)
                            for (int j = i + 1; j < n; j++, b++)
                                if (dag >> b & 1)
                                    c.req.emplace_back(i, j);
                        check22(items, c, false);
                    }
                } while (! vh::g.case_failed && std::next_permutation(perm.begin(), perm.end()));
            }
    }
    // --- the seam of every polygon of up to 5 (thorough 6) vertices on a 3x3 lattice
    const double scales[3] = { 5000, 1500, 900 };
    const int maxv = T ? 6 : 5;
    for (int n = 3; n <= maxv; n++)
    {
        std::vector<int> idx(n);
        std::function<void(int, unsigned)> rec = [&](int d, unsigned used)
        {
            if (d < n)
            {
                for (int q = 0; q < 9; q++)
                    if (! (used >> q & 1))
                    {
                        idx[d] = q;
                        rec(d + 1, used | 1u << q);
                    }
                return;
            }
            std::string key;
            for (int q : idx)
                key += (char)('0' + q);
            if (! vh::begin("seam %s", key.c_str()))
                return;
            for (int sc = 0; sc < 3 && ! vh::g.case_failed; sc++)
            {
                std::vector<Point2LL> poly;
                for (int q : idx)
                    poly.emplace_back(std::llround(q % 3 * scales[sc]), std::llround(q / 3 * scales[sc]) + 13 * (q % 3));
                bool fold = false; // an outline folding back on itself has no defined corner there
                for (int i = 0; i < n; i++)
                {
                    const int a = idx[i], b = idx[(i + 1) % n], e = idx[(i + 2) % n];
                    const int ux = a % 3 - b % 3, uy = a / 3 - b / 3, wx = e % 3 - b % 3, wy = e / 3 - b / 3;
                    fold = fold || (ux * wy == uy * wx && ux * wx + uy * wy > 0);
                }
                if (fold)
                    break;
                Conf c;
                for (int pref = 0; pref < 4; pref++)
                {
                    c.seam = ZSeamConfig(EZSeamType::SHARPEST_CORNER, Point2LL(0, 0), prefs[pref]);
                    seamCase(poly, c, pref);
                }
                const coord_t s = (coord_t)scales[sc];
                Shape right, corner_area;
                right.push_back(Polygon({ Point2LL(s / 2, -s), Point2LL(3 * s, -s), Point2LL(3 * s, 3 * s), Point2LL(s / 2, 3 * s) }, false));
                corner_area.push_back(Polygon({ Point2LL(s / 2, s / 2), Point2LL(3 * s, s / 2), Point2LL(3 * s, 3 * s), Point2LL(s / 2, 3 * s) }, false));
                c.overhang = right;
                seamCase(poly, c, 3);
                for (int q = 0; q < 4; q++)
                {
                    Conf e;
                    e.seam = q & 1 ? ZSeamConfig(EZSeamType::USER_SPECIFIED, Point2LL(s * 5 / 2, s / 3)) : ZSeamConfig(EZSeamType::SHORTEST);
                    e.start = Point2LL(-s / 3, s * 3 / 2);
                    if (q & 2)
                        e.overhang = corner_area;
                    seamCase(poly, e, 0);
                    e.disallowed = q & 2 ? corner_area : right;
                    seamCase(poly, e, 0);
                    if (q & 1)
                    {
                        e.disallowed.clear();
                        e.overhang.clear();
                        e.force = n - q;
                        seamCase(poly, e, 0);
                    }
                }
            }
        };
        rec(0, 0);
    }
}

// ---------------------------------------------------------------- C23
struct MLine
{
    Item it;
    double proj, lo, hi; // position along the monotonic direction, extent across it
};
bool run23(const std::vector<Item>& items, double angle, coord_t adj, const Point2LL& start, bool interlaced, int layout, std::vector<Out>& out)
{
    Pool pool(items, layout);
    PathOrderMonotonic<PP> po(AngleRadians(angle), adj, start, interlaced);
    po.paths_.reserve(items.size() + layout * 5); // another place in memory
    for (size_t i = 0; i < items.size(); i++)
        if (items[i].closed)
            po.addPolygon(pool.obj[i].get());
        else
            po.addPolyline(pool.obj[i].get());
    po.optimize();
    if (vh::g.only_mode)
    {
        fprintf(stderr, "angle %.2f reach %lld start %lld,%lld interlaced %d\n", angle, (long long)adj, (long long)start.X, (long long)start.Y, interlaced);
        for (size_t i = 0; i < items.size(); i++)
        {
            fprintf(stderr, " path %zu:", i);
            for (auto& q : items[i].pts)
                fprintf(stderr, " %lld,%lld", (long long)q.X, (long long)q.Y);
            fprintf(stderr, "\n");
        }
        for (auto& q : po.paths_)
            for (size_t i = 0; i < items.size(); i++)
                if (pool.obj[i].get() == q.vertices_)
                    fprintf(stderr, " -> %zu from %zu\n", i, q.start_vertex_);
    }
    return collect(po.paths_, items, pool, true, true, out);
}
void check23(const std::vector<MLine>& lines, double angle, coord_t adj, const Point2LL& start, bool interlaced)
{
    std::vector<Item> items;
    for (const MLine& l : lines)
        items.push_back(l.it);
    std::vector<Out> out;
    if (! run23(items, angle, adj, start, interlaced, 0, out))
        return;
    for (int layout = 1; layout < 4; layout++)
    {
        std::vector<Out> o2;
        if (! run23(items, angle, adj, start, interlaced, layout, o2))
            return;
        if (o2 != out)
        {
            vh::fail("the result depends on where the lines lie in memory (layout %d)", layout);
            return;
        }
    }
    vh::trans();
    vh::state(vh::mix(sig(out), interlaced));
    std::vector<size_t> pos(items.size());
    for (size_t k = 0; k < out.size(); k++)
        pos[out[k].idx] = k;
    std::vector<int> pass(lines.size());
    if (interlaced)
    {
        // every second row belongs to the second pass
        std::vector<size_t> by(lines.size());
        std::iota(by.begin(), by.end(), 0);
        std::stable_sort(by.begin(), by.end(), [&](size_t a, size_t b) { return lines[a].proj < lines[b].proj; });
        int cur = 0;
        double at = lines[by[0]].proj;
        for (size_t i : by)
        {
            if (lines[i].proj - at > adj / 2. + 5)
                cur ^= 1, at = lines[i].proj;
            pass[i] = cur;
        }
        for (size_t k = 0; k + 1 < out.size(); k++)
            if (pass[out[k].idx] != pass[out[k + 1].idx] && pass[out[k].idx] != pass[out[0].idx])
            {
                vh::fail("the two passes of an interlaced order are mixed");
                return;
            }
    }
    const double reach = interlaced ? 2. * adj : adj;
    for (size_t i = 0; i < lines.size(); i++)
        for (size_t j = 0; j < lines.size(); j++)
        {
            const MLine &a = lines[i], &b = lines[j];
            if (pass[i] != pass[j] || b.proj - a.proj < 20 || b.proj - a.proj > reach - 5 || std::min(a.hi, b.hi) - std::max(a.lo, b.lo) < 20)
                continue;
            if (pos[i] > pos[j])
            {
                vh::fail("line %zu at %.0f [%.0f, %.0f] is printed after its neighbour %zu at %.0f [%.0f, %.0f]", i, a.proj, a.lo, a.hi, j, b.proj, b.lo, b.hi);
                return;
            }
        }
}
void explore23()
{
    const bool T = vh::thorough();
    const double angles[5] = { 0, M_PI / 2, M_PI / 4, M_PI * 7 / 6, 2.0 };
    // contents of one row of `units` unit stretches: every set of disjoint lines between its points
    auto rowsets = [](int units)
    {
        std::vector<std::vector<std::pair<int, int>>> r;
        std::function<void(int, std::vector<std::pair<int, int>>)> rec = [&](int at, std::vector<std::pair<int, int>> cur)
        {
            if (at == units)
            {
                r.push_back(cur);
                return;
            }
            rec(at + 1, cur);
            for (int e = at + 1; e <= units; e++)
            {
                auto c = cur;
                c.emplace_back(at, e);
                rec(e, c);
            }
        };
        rec(0, {});
        return r;
    };
    struct Space
    {
        int rows, units, ang, variants;
    };
    std::vector<Space> spaces{ { 2, 3, 5, 8 }, { 3, 3, 5, 8 }, { 4, 3, 3, 4 } };
    if (T)
        spaces = { { 2, 5, 5, 8 }, { 3, 4, 5, 8 }, { 4, 3, 5, 8 }, { 5, 3, 2, 4 }, { 4, 4, 1, 4 } };
    for (const Space& sp : spaces)
    {
        const auto sets = rowsets(sp.units);
        long total = 1;
        for (int i = 0; i < sp.rows; i++)
            total *= (long)sets.size();
        for (long code = 1; code < total; code++)
        {
            if (! vh::begin("rows%d units%d %ld", sp.rows, sp.units, code))
                continue;
            for (int a = 0; a < sp.ang && ! vh::g.case_failed; a++)
                for (int var = 0; var < sp.variants && ! vh::g.case_failed; var++)
                {
                    const double ang = angles[(a + code) % 5];
                    const double vx = -std::cos(ang), vy = std::sin(ang), wx = -vy, wy = vx;
                    const double spacing = var & 1 ? 400 : 1000, unit = 4000;
                    std::vector<MLine> lines;
                    long cc = code;
                    for (int r = 0; r < sp.rows; r++, cc /= (long)sets.size())
                        for (auto [s, e] : sets[cc % sets.size()])
                        {
                            MLine l;
                            double p0 = s * unit + 400, p1 = e * unit - 400;
                            const double pr = (r + 1) * spacing;
                            l.proj = pr;
                            l.lo = p0;
                            l.hi = p1;
                            l.it.closed = false;
                            if ((r + s + var) % 2)
                                std::swap(p0, p1); // drawn from either end
                            auto at = [&](double t) { return Point2LL(std::llround(vx * pr + wx * t), std::llround(vy * pr + wy * t)); };
                            l.it.pts = { at(p0), at(p1) };
                            if (var & 4 && e - s > 1)
                                l.it.pts.insert(l.it.pts.begin() + 1, at((p0 + p1) / 2));
                            lines.push_back(l);
                        }
                    if (var & 2)
                        std::reverse(lines.begin(), lines.end());
                    else if (var & 1 && lines.size() > 2)
                        std::rotate(lines.begin(), lines.begin() + lines.size() / 2, lines.end());
                    const Point2LL start(std::llround(wx * sp.units * unit / 2), std::llround(wy * sp.units * unit / 2)); // in the middle: ties
                    for (int il = 0; il < 2 && ! vh::g.case_failed; il++)
                        check23(lines, ang, (coord_t)((var & 2 ? 1.3 : 2.2) * spacing), start, il);
                }
        }
    }
    // --- all sets of lines between neighbours of a 3x3 lattice (thorough: 4x3): strings, junctions, loops
    const int W = T ? 4 : 3, H = 3;
    std::vector<std::pair<int, int>> edges;
    for (int y = 0; y < H; y++)
        for (int x = 0; x < W; x++)
        {
            if (x + 1 < W)
                edges.emplace_back(y * W + x, y * W + x + 1);
            if (y + 1 < H)
                edges.emplace_back(y * W + x, y * W + x + W);
        }
    for (long m = 1; m < 1l << edges.size(); m++)
    {
        if (! vh::begin("lattice %ld", m))
            continue;
        std::vector<Item> items;
        for (size_t e = 0; e < edges.size(); e++)
            if (m >> e & 1)
            {
                int p = edges[e].first, q = edges[e].second;
                if ((m >> 2 ^ e) & 1)
                    std::swap(p, q);
                items.push_back({ { Point2LL(p % W * 700, p / W * 700), Point2LL(q % W * 700, q / W * 700) }, false });
                if (e % 5 == 2)
                    items.back().pts.insert(items.back().pts.begin() + 1, Point2LL((p % W + q % W) * 350, (p / W + q / W) * 350));
            }
        for (int a = 0; a < 3 && ! vh::g.case_failed; a++)
            for (int il = 0; il < 2 && ! vh::g.case_failed; il++)
            {
                std::vector<Out> out, o2;
                if (! run23(items, angles[(a * 2 + m) % 5], 500, Point2LL(700, 700), il, 0, out) || ! run23(items, angles[(a * 2 + m) % 5], 500, Point2LL(700, 700), il, 3, o2))
                    break;
                vh::trans();
                if (out != o2)
                    vh::fail("the result depends on where the lines lie in memory");
            }
    }
    // --- loops, polygons, single points and empty lines among them
    const std::vector<Item> cat = catalogue();
    const int K = (int)cat.size();
    for (int code = 0; code < K * K * K; code++)
    {
        if (! vh::begin("mixed %d", code))
            continue;
        std::vector<Item> items;
        for (int i = 0, cc = code; i < 3; i++, cc /= K)
            items.push_back(cat[cc % K]);
        for (int a = 0; a < 5 && ! vh::g.case_failed; a++)
            for (int il = 0; il < 2 && ! vh::g.case_failed; il++)
            {
                std::vector<Out> out, o2;
                if (! run23(items, angles[a], 1500, Point2LL(0, 0), il, 0, out) || ! run23(items, angles[a], 1500, Point2LL(0, 0), il, 3, o2))
                    break;
                vh::trans();
                if (out != o2)
                    vh::fail("the result depends on where the lines lie in memory");
            }
    }
}
} // namespace
int main(int argc, char** argv)
{
    return vh::main_(argc, argv, std::string(CHECK) == "C22" ? explore22 : explore23, 16);
}
