// C16: inside tests, closest points and moving points inside/outside, for every small outline and every query point of a
// lattice around it, against exact geometry.
#include "shapes.h"
#include "geometry/OpenPolyline.h"
#include "geometry/PointMatrix.h"
#include "geometry/SingleShape.h"
#include "utils/AABB.h"
#include "utils/PolygonsPointIndex.h"
#include "utils/linearAlg2D.h"
#include "utils/polygonUtils.h"

using namespace cura;
using namespace vs;

namespace
{
bool right_angles = true;
std::string w; // description of the outlines, for messages
struct Near
{
    double d;
    std::vector<std::pair<double, double>> at; // all (nearly) nearest boundary points
};
Near nearest(P q, const Paths& ps)
{
    std::vector<std::array<double, 3>> all;
    Near n{ 1e300, {} };
    for (auto& p : ps)
        for (size_t i = 0; i < p.size(); i++)
        {
            const P a = p[i], b = p[(i + 1) % p.size()];
            const double l2 = (double)dotp(a, b, b), t = l2 == 0 ? 0 : std::clamp((double)dotp(a, b, q) / l2, 0.0, 1.0);
            const double x = a.x + t * (b.x - a.x), y = a.y + t * (b.y - a.y), d = std::hypot(x - q.x, y - q.y);
            all.push_back({ d, x, y });
            n.d = std::min(n.d, d);
        }
    for (auto& a : all)
        if (a[0] <= n.d + 2)
            n.at.push_back({ a[1], a[2] });
    return n;
}
std::string str(P p)
{
    return "(" + std::to_string(p.x) + "," + std::to_string(p.y) + ")";
}
bool border(P q, const Path& p)
{
    return onBorder(q, Paths{ p });
}
// is r on the requested side (or within rounding of the border)?
bool side(P r, const Paths& ps, bool inside)
{
    return evenOdd(r, ps) == inside || distBorder(r, ps) <= 2;
}
void checkMoved(const char* op, P q, const Near& n, const Paths& ps, P r, bool reported, i64 d, i64 max2, bool strict_max)
{
    const bool in = evenOdd(q, ps), on = onBorder(q, ps);
    const bool right = d != 0 && (in == (d > 0)) && ! on;
    const double D = std::abs((double)d);
    auto F = [&](const char* what) { vh::fail("%s of %s by %lld (limit %lld): %s; result %s, border at %.2f; outlines %s", op, str(q).c_str(), d, max2, what, str(r).c_str(), n.d, w.c_str()); };
    if (right)
    {
        if (! reported)
            return F("reported as impossible although already on the requested side");
        if (n.d > D + 2)
        {
            if (! (r == q))
                F("moved although far enough on the requested side");
            return;
        }
        if (n.d > D - 2 && r == q)
            return;
    }
    else if (! on)
    {
        const double m = std::sqrt((double)max2);
        if (n.d > m + 2)
        {
            if (! (r == q))
                F("moved although beyond the limit");
            if (reported)
                F("reported as done although beyond the limit");
            return;
        }
        if (n.d > m - 2)
            return; // either
    }
    if (! reported && ! (strict_max && max2 == 0))
        return F("reported as impossible");
    // at the distance from a nearest border point, on the requested side
    bool ok = false;
    for (auto& x : n.at)
        ok |= std::abs(std::hypot(x.first - r.x, x.second - r.y) - D) <= 3;
    if (! ok)
        return F("not at the requested distance from the nearest point of the border");
    // Moving perpendicularly off an edge can cross the next edge at a corner that is not right.
    if (! right_angles)
        for (auto& x : n.at)
            for (auto& p : ps)
                for (size_t i = 0; i < p.size(); i++)
                {
                    const P v = p[i], a = p[(i + p.size() - 1) % p.size()], b = p[(i + 1) % p.size()];
                    if (std::hypot(v.x - x.first, v.y - x.second) < 8 * D + 3 && ! (dotp(v, a, q) < -3 * std::sqrt((double)dotp(v, a, a)) && dotp(v, b, q) < -3 * std::sqrt((double)dotp(v, b, b))))
                        return;
                }
    if (d != 0 && ! side(r, ps, d > 0))
        F("not on the requested side");
}
struct Grid
{
    Shape shape;
    std::unique_ptr<LocToLineGrid> grid;
};

// full: the outlines have no vertex shared by two corners, so that nesting and sides are unambiguous
void query(const Shape& S, const Paths& ps, P q, bool full, const LocToLineGrid& grid, i64 cell, i64 u)
{
    const Point2LL Q(q.x, q.y);
    const bool on = onBorder(q, ps), in = evenOdd(q, ps);
    vh::trans();
    // --- inside
    for (bool br : { false, true })
    {
        const bool want = on ? br : in;
        if (S.inside(Q, br) != want)
            vh::fail("inside(%s, border %d) is %d; outlines %s", str(q).c_str(), br, ! want, w.c_str());
        for (size_t k = 0; k < ps.size(); k++)
        {
            const bool b = border(q, ps[k]);
            if (full && S[k].inside(Q, br) != (b ? br : evenOdd(q, { ps[k] })))
                vh::fail("inside(%s, border %d) of outline %zu is wrong; outlines %s", str(q).c_str(), br, k, w.c_str());
        }
        const size_t f = S.findInside(Q, br);
        if (! full)
            continue;
        if (on)
        {
            if (br && (f == NO_INDEX || ! border(q, ps[f])))
                vh::fail("findInside(%s, border 1) is %zd on the border; outlines %s", str(q).c_str(), (ssize_t)f, w.c_str());
        }
        else
        {
            // the innermost outline around the point
            size_t best = NO_INDEX;
            if (in)
                for (size_t k = 0; k < ps.size(); k++)
                    if (evenOdd(q, { ps[k] }))
                    {
                        auto ar = [&](size_t i) { const i128 a = area2(ps[i]); return a < 0 ? -a : a; };
                        if (best == NO_INDEX || ar(k) < ar(best))
                            best = k;
                    }
            if (f != best)
                vh::fail("findInside(%s, border %d) is %zd instead of %zd; outlines %s", str(q).c_str(), br, (ssize_t)f, (ssize_t)best, w.c_str());
        }
    }
    // --- closest
    const Near n = nearest(q, ps);
    const ClosestPointPolygon c = PolygonUtils::findClosest(Q, S);
    auto checkClosest = [&](const char* op, const ClosestPointPolygon& c, const Paths& ps, double d, bool idx)
    {
        if (! c.isValid())
        {
            vh::fail("%s(%s) finds nothing; outlines %s", op, str(q).c_str(), w.c_str());
            return;
        }
        const P l{ c.location_.X, c.location_.Y };
        if (std::hypot((double)(l.x - q.x), (double)(l.y - q.y)) > d + 1.5)
            vh::fail("%s(%s) = %s is not nearest (%.2f); outlines %s", op, str(q).c_str(), str(l).c_str(), d, w.c_str());
        if (idx && (c.poly_idx_ >= ps.size() || c.poly_ != &S[c.poly_idx_]))
            vh::fail("%s(%s): wrong outline index %zu; outlines %s", op, str(q).c_str(), c.poly_idx_, w.c_str());
        const auto& p = *c.poly_;
        const Point2LL a = p[c.point_idx_], b = p[(c.point_idx_ + 1) % p.size()];
        if (dist(l, { a.X, a.Y }, { b.X, b.Y }) > 1.5)
            vh::fail("%s(%s) = %s is not on its segment %zu; outlines %s", op, str(q).c_str(), str(l).c_str(), c.point_idx_, w.c_str());
        if (distBorder(l, ps) > 1.5)
            vh::fail("%s(%s) = %s is not on the border; outlines %s", op, str(q).c_str(), str(l).c_str(), w.c_str());
    };
    checkClosest("findClosest", c, ps, n.d, true);
    for (size_t k = 0; k < ps.size(); k++)
        checkClosest("findClosest of one outline", PolygonUtils::findClosest(Q, S[k]), { ps[k] }, distBorder(q, { ps[k] }), false);
    const auto cl = PolygonUtils::findClose(Q, S, grid);
    if (cl)
    {
        if (n.d <= cell)
            checkClosest("findClose", *cl, ps, n.d, true);
    }
    else if (n.d <= cell - 2)
        vh::fail("findClose(%s) finds nothing within %lld, border at %.2f; outlines %s", str(q).c_str(), cell, n.d, w.c_str());
    {
        i128 best = -1;
        for (auto& p : ps)
            for (auto& v : p)
                if (best < 0 || dotp(q, v, v) < best)
                    best = dotp(q, v, v);
        const PolygonsPointIndex v = PolygonUtils::findNearestVert(Q, S);
        const P vp{ v.p().X, v.p().Y };
        if (dotp(q, vp, vp) != best)
            vh::fail("findNearestVert(%s) = %s is not nearest; outlines %s", str(q).c_str(), str(vp).c_str(), w.c_str());
        if (ps.size() == 1)
        {
            const auto k = PolygonUtils::findNearestVert(Q, S[0]);
            if (k >= ps[0].size() || dotp(q, ps[0][k], ps[0][k]) != best)
                vh::fail("findNearestVert(%s) in one outline is not nearest; outlines %s", str(q).c_str(), w.c_str());
        }
    }
    // --- moving
    if (! full)
        return;
    const i64 dmax = u / 12;
    for (i64 d : { (i64)0, dmax, -dmax, (i64)10, (i64)-10 })
        for (i64 m : { u / 4, 100 * u })
        {
            Point2LL a = Q;
            const size_t r = PolygonUtils::moveInside(S, a, (int)d, m * m);
            checkMoved("moveInside", q, n, ps, { a.X, a.Y }, r != NO_INDEX, d, m * m, true);
            if (r != NO_INDEX && (r >= ps.size() || distBorder(q, { ps[r] }) > n.d + 2))
                vh::fail("moveInside(%s) names outline %zu which is not the nearest; outlines %s", str(q).c_str(), r, w.c_str());
            Point2LL b = Q;
            const size_t o = PolygonUtils::moveOutside(S, b, (int)-d, m * m);
            if (b != a || (unsigned)o != (unsigned)r)
                vh::fail("moveOutside(%s, %lld) differs from moveInside the other way; outlines %s", str(q).c_str(), -d, w.c_str());
            if (d != 0)
            {
                Point2LL e = Q;
                const ClosestPointPolygon r2 = PolygonUtils::moveInside2(S, e, (int)d, m * m);
                if (! on)
                    checkMoved("moveInside2", q, n, ps, { e.X, e.Y }, r2.isValid(), d, m * m, false);
                Point2LL g = Q;
                const ClosestPointPolygon r3 = PolygonUtils::moveInside2(S, g, (int)d, m * m, &S, &grid);
                if (! on && n.d < cell) // farther away the grid need not know the nearest segment
                    checkMoved("moveInside2 with grid", q, n, ps, { g.X, g.Y }, r3.isValid(), d, m * m, false);
                Point2LL h = Q;
                const ClosestPointPolygon r4 = PolygonUtils::ensureInsideOrOutside(S, h, (int)d, m * m, &S, &grid);
                if (r4.isValid() && ! side({ h.X, h.Y }, ps, d > 0))
                    vh::fail("ensureInsideOrOutside(%s, %lld) ends at %s on the wrong side; outlines %s", str(q).c_str(), d, str(P{ h.X, h.Y }).c_str(), w.c_str());
                if (! r4.isValid() && n.d < m - 2 && n.d < cell)
                    vh::fail("ensureInsideOrOutside(%s, %lld, %lld) gives up; border at %.2f; outlines %s", str(q).c_str(), d, m * m, n.d, w.c_str());
                const Point2LL mv = PolygonUtils::moveInside(c, (int)d);
                const P mp{ mv.X, mv.Y };
                if ((std::abs(std::hypot((double)(mv.X - c.location_.X), (double)(mv.Y - c.location_.Y)) - std::abs((double)d)) > 2 || (right_angles && ! side(mp, ps, d > 0))))
                    vh::fail("moveInside of border point %s by %lld gives %s; outlines %s", str(P{ c.location_.X, c.location_.Y }).c_str(), d, str(mp).c_str(), w.c_str());
            }
            if (ps.size() == 1)
            {
                Point2LL e = Q;
                PolygonUtils::moveInside(S[0], e, (int)d, m * m);
                if (e != a)
                    vh::fail("moveInside(%s, %lld) of the single outline gives another point; outlines %s", str(q).c_str(), d, w.c_str());
            }
        }
}
// proper crossing, touching: exact
int sgn(i128 v)
{
    return v > 0 ? 1 : v < 0 ? -1 : 0;
}
bool segTouch(P a, P b, P c, P d)
{
    const int o1 = sgn(cross(a, b, c)), o2 = sgn(cross(a, b, d)), o3 = sgn(cross(c, d, a)), o4 = sgn(cross(c, d, b));
    if (o1 * o2 < 0 && o3 * o4 < 0)
        return true;
    return onSegment(c, a, b) || onSegment(d, a, b) || onSegment(a, c, d) || onSegment(b, c, d);
}
double segDist(P a, P b, P c, P d)
{
    if (segTouch(a, b, c, d))
        return 0;
    return std::min(std::min(dist(a, c, d), dist(b, c, d)), std::min(dist(c, a, b), dist(d, a, b)));
}
void segmentQuery(const Shape& S, const Paths& ps, P a, P b, bool axis, const LocToLineGrid& grid, i64 u)
{
    if (a == b)
        return;
    vh::trans();
    double dmin = 1e300;
    double depth = 0; // how clearly it crosses: of the segments properly crossed, the distance of the nearest of the four ends
    for (auto& p : ps)
        for (size_t i = 0; i < p.size(); i++)
        {
            const P c = p[i], d = p[(i + 1) % p.size()];
            const double s = segDist(a, b, c, d);
            dmin = std::min(dmin, s);
            if (s == 0)
                depth = std::max(depth, std::min(std::min(dist(a, c, d), dist(b, c, d)), std::min(dist(c, a, b), dist(d, a, b))));
        }
    const bool exact = axis && (a.x == b.x || a.y == b.y); // the code rotates the line, rounding to microns
    const bool must = depth > 4 || (exact && dmin == 0), cannot = dmin > 4 || (exact && dmin > 0);
    const Point2LL A(a.x, a.y), B(b.x, b.y);
    const bool r1 = PolygonUtils::polygonCollidesWithLineSegment(S, A, B), r2 = PolygonUtils::polygonCollidesWithLineSegment(A, B, grid);
    if ((must && ! r1) || (cannot && r1))
        vh::fail("collision of line %s-%s is %d; outlines %s", str(a).c_str(), str(b).c_str(), r1, w.c_str());
    if ((must && ! r2) || (cannot && r2))
        vh::fail("collision of line %s-%s in grid is %d; outlines %s", str(a).c_str(), str(b).c_str(), r2, w.c_str());
    bool any = false;
    for (size_t k = 0; k < S.size(); k++)
        any |= PolygonUtils::polygonCollidesWithLineSegment(S[k], A, B);
    if (any != r1)
        vh::fail("collision of line %s-%s differs between the outlines and their set; outlines %s", str(a).c_str(), str(b).c_str(), w.c_str());
    (void)u;
}
void lengthQueries(const Shape& S, const Paths& ps, i64 u)
{
    for (size_t k = 0; k < ps.size(); k++)
    {
        const Path& p = ps[k];
        double total = 0;
        for (size_t i = 0; i < p.size(); i++)
            total += std::hypot((double)(p[i].x - p[(i + 1) % p.size()].x), (double)(p[i].y - p[(i + 1) % p.size()].y));
        for (size_t i = 0; i < p.size(); i++)
            for (int part = 0; part < 3; part++)
                for (double frac : { 0.05, 0.3, 0.77, 0.99, 1.4 })
                {
                    const P a = p[i], b = p[(i + 1) % p.size()];
                    const Point2LL start(a.x + (b.x - a.x) * part / 3, a.y + (b.y - a.y) * part / 3);
                    const coord_t D = std::llround(total * frac);
                    const ClosestPointPolygon r = PolygonUtils::walk(ClosestPointPolygon(start, i, &S[k], k), D);
                    vh::trans();
                    // reference
                    double left = (double)D;
                    size_t at = i;
                    double x = start.X, y = start.Y;
                    while (true)
                    {
                        const P e = p[(at + 1) % p.size()];
                        const double l = std::hypot(e.x - x, e.y - y);
                        if (l >= left)
                        {
                            x += (e.x - x) * left / l;
                            y += (e.y - y) * left / l;
                            break;
                        }
                        left -= l;
                        x = e.x;
                        y = e.y;
                        at = (at + 1) % p.size();
                    }
                    const double tol = 2 + 2.0 * p.size();
                    if (std::hypot(x - r.location_.X, y - r.location_.Y) > tol)
                        vh::fail("walking %lld from %s gives %s instead of (%.1f,%.1f); outlines %s", (i64)D, str(P{ start.X, start.Y }).c_str(), str(P{ r.location_.X, r.location_.Y }).c_str(), x, y, w.c_str());
                    const P sa = p[r.point_idx_], sb = p[(r.point_idx_ + 1) % p.size()];
                    if (dist({ r.location_.X, r.location_.Y }, sa, sb) > 2)
                        vh::fail("walking %lld from %s names segment %zu; outlines %s", (i64)D, str(P{ start.X, start.Y }).c_str(), r.point_idx_, w.c_str());
                }
        // the first point at a distance, along the open line
        OpenPolyline l;
        for (auto& q : p)
            l.push_back(Point2LL(q.x, q.y));
        for (size_t i = 0; i < p.size(); i++)
            for (i64 D : { u / 3, u, 2 * u + 7 })
            {
                GivenDistPoint g;
                const bool ok = PolygonUtils::getNextPointWithDistance(Point2LL(p[i].x, p[i].y), D, l, (int)i, 0, g);
                // reference: the first segment (including the closing one) that leaves the circle
                bool want = false, ambiguous = false;
                double wx = 0, wy = 0;
                for (size_t s = i; s < p.size() && ! want; s++)
                {
                    const P a = p[s], b = p[(s + 1) % p.size()];
                    const double dx = b.x - a.x, dy = b.y - a.y, fx = a.x - p[i].x, fy = a.y - p[i].y;
                    const double A = dx * dx + dy * dy, B = 2 * (fx * dx + fy * dy), C = fx * fx + fy * fy - (double)D * D, disc = B * B - 4 * A * C;
                    if (std::abs(std::sqrt(std::max(0.0, C + (double)D * D)) - D) < 4 || std::abs(std::hypot(fx + dx, fy + dy) - D) < 4 || (disc < 0 ? -disc : disc) < 1e-3 * B * B + 1)
                        ambiguous = true; // tangent or ending on the circle
                    if (disc < 0)
                        continue;
                    const double t = (-B + std::sqrt(disc)) / (2 * A);
                    if (t >= 0 && t <= 1)
                    {
                        want = true;
                        wx = a.x + t * dx;
                        wy = a.y + t * dy;
                    }
                }
                if (ambiguous)
                    continue;
                vh::trans();
                if (ok != want || (ok && std::hypot(g.location.X - wx, g.location.Y - wy) > 6))
                    vh::fail("point at distance %lld from %s: %d %s instead of %d (%.1f,%.1f); outlines %s", D, str(p[i]).c_str(), ok, str(P{ g.location.X, g.location.Y }).c_str(), want, wx, wy, w.c_str());
            }
    }
}
void all(const Paths& ps, const std::vector<P>& qs, const std::vector<P>& ends, bool full, bool axis, i64 u)
{
    const Shape S = toShape(ps);
    w = vs::str(ps);
    vh::state(hashPaths(ps));
    const i64 cell = u * 3 / 4;
    const auto grid = PolygonUtils::createLocToLineGrid(S, (int)cell);
    for (P q : qs)
    {
        query(S, ps, q, full, *grid, cell, u);
        if (vh::g.case_failed)
            return;
    }
    for (size_t i = 0; i < ends.size(); i++)
        for (size_t j = 0; j < ends.size(); j++)
        {
            segmentQuery(S, ps, ends[i], ends[j], axis, *grid, u);
            if (vh::g.case_failed)
                return;
        }
    lengthQueries(S, ps, u);
    if (full) // parts
        for (const SingleShape& part : S.splitIntoParts())
        {
            const Paths pp = fromShape(part);
            for (P q : qs)
            {
                const Point2LL Q(q.x, q.y);
                if (! onBorder(q, pp) && part.inside(Q) != evenOdd(q, pp))
                    vh::fail("part inside(%s) is wrong; outlines %s", str(q).c_str(), w.c_str());
                if (border(q, pp[0]) && part.inside(Q, true) != true)
                    vh::fail("part inside(%s, border 1) on its outer border is false; outlines %s", str(q).c_str(), w.c_str());
                if (border(q, pp[0]) && part.inside(Q, false) != false)
                    vh::fail("part inside(%s, border 0) on its outer border is true; outlines %s", str(q).c_str(), w.c_str());
            }
        }
}
bool simple(const Path& p)
{
    const size_t n = p.size();
    for (size_t i = 0; i < n; i++)
    {
        const P a = p[i], b = p[(i + 1) % n], c = p[(i + 2) % n];
        if (cross(a, b, c) == 0)
            return false;
        for (size_t j = i + 2; j < n; j++)
            if (! (i == 0 && j == n - 1) && segTouch(a, b, p[j], p[(j + 1) % n]))
                return false;
    }
    return true;
}
void explore()
{
    const i64 u = 1200;
    auto es = embeds(u);
    es.push_back({ 3 * u, -4 * u, 4 * u, 3 * u, 123457, -7 * u, "rot53" });
    // images
    for (auto [W, H] : { std::pair{ 3, 3 }, std::pair{ 4, 3 } })
        for (size_t e = 0; e < es.size(); e++)
        {
            if (W == 4 && ! vh::thorough() && e != 4)
                continue;
            const Complex C = quads(W, H);
            std::vector<P> qs, ends;
            auto at = [&](i64 x4, i64 y4) { return P{ (es[e].a * x4 + es[e].b * y4) / 4 + es[e].tx, (es[e].c * x4 + es[e].d * y4) / 4 + es[e].ty }; };
            for (int y = -3; y <= 4 * H + 3; y++)
                for (int x = -3; x <= 4 * W + 3; x++)
                    if (W == 3 || vh::thorough() || ((x & 1) && (y & 1)))
                    {
                        const P q = at(x, y);
                        qs.push_back(q);
                        if (x % 4 == 0 && y % 4 == 0)
                            for (int k = 0; k < 9; k++)
                                qs.push_back({ q.x + k % 3 - 1, q.y + k / 3 - 1 });
                        if ((x % 4 == 0) != (y % 4 == 0))
                            qs.push_back({ q.x + 1, q.y - 1 }), qs.push_back({ q.x - 1, q.y });
                    }
            for (int y = -1; y <= 2 * H + 1; y++)
                for (int x = -1; x <= 2 * W + 1; x++)
                    if (vh::thorough() ? true : (x + y) % 3 == 0)
                        ends.push_back(at(2 * x, 2 * y));
            for (uint64_t m = 1; m < (1ull << (W * H)); m++)
                for (int v : { 0, 1, 2, 4 })
                {
                    const bool full = unambiguous(W, H, m);
                    if (v == 1 && full)
                        continue;
                    if (! vh::thorough() && v && (e != 4 || W == 4))
                        continue;
                    if (! vh::thorough() && W == 4 && m % 3)
                        continue;
                    if (! vh::begin("image %dx%d mask %llx embedding %s variant %d", W, H, (unsigned long long)m, es[e].name, v))
                        continue;
                    right_angles = es[e].a * es[e].b + es[e].c * es[e].d == 0;
                    all(trace(C, m, es[e], v), qs, ends, full, (es[e].a == 0 || es[e].b == 0) && es[e].a * es[e].c == 0, u);
                    vh::outcome(m);
                }
        }
    // all simple lattice polygons
    for (size_t e : { 0, 4, 3 })
    {
        const int N = vh::thorough() ? 6 : 4;
        std::vector<P> lat;
        for (int i = 0; i < 9; i++)
            lat.push_back({ i % 3, i / 3 });
        auto at = [&](i64 x4, i64 y4) { return P{ (es[e].a * x4 + es[e].b * y4) / 4 * 3 + es[e].tx, (es[e].c * x4 + es[e].d * y4) / 4 * 3 + es[e].ty }; };
        std::vector<P> qs, ends;
        for (int y = -2; y <= 10; y++)
            for (int x = -2; x <= 10; x++)
                qs.push_back(at(x, y));
        for (int y = -1; y <= 5; y++)
            for (int x = -1; x <= 5; x++)
                if (vh::thorough() || (x + 2 * y) % 3 == 0)
                    ends.push_back(at(2 * x, 2 * y));
        std::vector<int> sel;
        std::function<void(int)> rec = [&](int used)
        {
            if (sel.size() >= 3)
            {
                Path p;
                for (int i : sel)
                    p.push_back(lat[i]);
                if (area2(p) > 0 && simple(p) && vh::begin("lattice polygon %s embedding %s", [&] { std::string s; for (int i : sel) s += char('0' + i); return s; }().c_str(), es[e].name))
                {
                    Path q;
                    for (P x : p)
                        q.push_back(at(4 * x.x, 4 * x.y));
                    right_angles = false;
                    all({ q }, qs, ends, true, false, u);
                    vh::outcome(hashPaths({ q }));
                }
            }
            if ((int)sel.size() == N)
                return;
            for (int i = sel.empty() ? 0 : sel[0] + 1; i < 9; i++)
                if (! (used >> i & 1))
                {
                    sel.push_back(i);
                    rec(used | 1 << i);
                    sel.pop_back();
                }
        };
        for (int i = 0; i < 9; i++)
        {
            sel = { i };
            rec(1 << i);
        }
    }
    // pairs of images: overlap tests and clipping by a box
    for (size_t e : { 0, 1, 3, 4 })
    {
        const Complex C = quads(3, 2);
        for (uint64_t a = 0; a < 64; a++)
        {
            if (! vh::begin("overlap with image %llx embedding %s", (unsigned long long)a, es[e].name))
                continue;
            const Paths pa = trace(C, a, es[e]);
            const Shape A = toShape(pa);
            for (uint64_t b = 0; b < 64; b++)
            {
                const Paths pb = trace(C, b, es[e]);
                const Shape B = toShape(pb);
                vh::trans();
                const double h = PolygonUtils::relativeHammingDistance(A, B);
                const int na = __builtin_popcountll(a), nb = __builtin_popcountll(b), nx = __builtin_popcountll(a ^ b);
                if (unambiguous(3, 2, a ^ b) && na + nb && std::abs(h - (double)nx / (na + nb)) > 1e-9)
                    vh::fail("relative Hamming distance of %llx and %llx is %f", (unsigned long long)a, (unsigned long long)b, h);
                if (na + nb == 0 && h != 0)
                    vh::fail("relative Hamming distance of nothing and nothing is %f", h);
                if (A.size() == 1 && B.size() == 1 && unambiguous(3, 2, a) && unambiguous(3, 2, b))
                {
                    if (PolygonUtils::polygonsIntersect(A[0], B[0]) != ((a & b) != 0))
                        vh::fail("polygonsIntersect of %llx and %llx is %d", (unsigned long long)a, (unsigned long long)b, (a & b) == 0);
                    double dd = 1e300;
                    for (auto& v : pa[0])
                        dd = std::min(dd, distBorder(v, pb));
                    for (i64 gap : { u / 2, 2 * u, 5 * u })
                        if (std::abs(dd - gap) > 3 && PolygonUtils::polygonOutlinesAdjacent(A[0], B[0], gap) != (dd < gap))
                            vh::fail("polygonOutlinesAdjacent of %llx and %llx at %lld is wrong (distance %.1f)", (unsigned long long)a, (unsigned long long)b, gap, dd);
                }
            }
            if (e <= 1 || e == 3)
                for (int x0 = 0; x0 <= 6; x0++)
                    for (int x1 = x0 + 1; x1 <= 6; x1++)
                        for (int y0 = 0; y0 <= 4; y0++)
                            for (int y1 = y0 + 1; y1 <= 4; y1++)
                            {
                                const P c = { (es[e].a * x0 + es[e].b * y0) / 2 + es[e].tx, (es[e].c * x0 + es[e].d * y0) / 2 + es[e].ty }, d = { (es[e].a * x1 + es[e].b * y1) / 2 + es[e].tx, (es[e].c * x1 + es[e].d * y1) / 2 + es[e].ty };
                                const AABB box(Point2LL(std::min(c.x, d.x), std::min(c.y, d.y)), Point2LL(std::max(c.x, d.x), std::max(c.y, d.y)));
                                const Paths r = fromShape(PolygonUtils::clipPolygonWithAABB(A, box));
                                vh::trans();
                                for (int y = 0; y < 4; y++)
                                    for (int x = 0; x < 6; x++)
                                    {
                                        const P q{ (es[e].a * (2 * x + 1) + es[e].b * (2 * y + 1)) / 4 + es[e].tx, (es[e].c * (2 * x + 1) + es[e].d * (2 * y + 1)) / 4 + es[e].ty };
                                        if (! (x >= x0 && x < x1 && y >= y0 && y < y1))
                                            continue; // outside the box the result may keep more
                                        const bool want = a >> (y / 2 * 3 + x / 2) & 1;
                                        if (evenOdd(q, r) != want)
                                            vh::fail("clipping %llx by box [%d,%d]x[%d,%d]: point %s is wrong: %s", (unsigned long long)a, x0, x1, y0, y1, str(q).c_str(), vs::str(r).c_str());
                                    }
                            }
        }
    }
}
} // namespace
int main(int argc, char** argv)
{
    return vh::main_(argc, argv, explore, 4);
}
