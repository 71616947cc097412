// C21: planar predicates on every tuple of lattice points x embeddings, against exact (128 bit / rational) arithmetic.
#include "shapes.h"
#include "geometry/Point3Matrix.h"
#include "geometry/PointMatrix.h"
#include "settings/types/Angle.h"
#include "utils/linearAlg2D.h"
#include "utils/math.h"
#include <numbers>

using namespace cura;
using namespace vs;
using LA = LinearAlg2D;

namespace
{
using Q = long double;
Point2LL pt(P p)
{
    return Point2LL(p.x, p.y);
}
P P2(Point2LL p)
{
    return { p.X, p.Y };
}
int sg(i128 v)
{
    return v > 0 ? 1 : v < 0 ? -1 : 0;
}
double len(P a, P b)
{
    return std::hypot((double)(a.x - b.x), (double)(a.y - b.y));
}
#define F(...)                                                                                                                                                                    \
    do                                                                                                                                                                            \
    {                                                                                                                                                                             \
        vh::fail(__VA_ARGS__);                                                                                                                                                    \
        return;                                                                                                                                                                   \
    } while (0)
#define A3 a.x, a.y, b.x, b.y, c.x, c.y
#define S3 "(%lld,%lld) (%lld,%lld) (%lld,%lld)"
#define A4 a.x, a.y, b.x, b.y, c.x, c.y, d.x, d.y
#define S4 "(%lld,%lld) (%lld,%lld) (%lld,%lld) (%lld,%lld)"
void two(P a, P b)
{
    const Point2LL A = pt(a), B = pt(b), v = B - A;
    const double l = len(a, b);
    vh::trans(8);
    if (std::llabs(vSize(v) - std::llround(l)) > 1 || vSize2(v) != (i64)dotp(a, b, b) || std::fabs(vSizeMM(v) - l / 1000) > 1e-6 * l / 1000 + 1e-9)
        F("length of (%lld,%lld)", v.X, v.Y);
    for (i64 m : { (i64)std::floor(l) - 1, (i64)std::floor(l), (i64)std::ceil(l), (i64)std::ceil(l) + 1 })
        if (m >= 0 && (shorterThen(v, m) != ((i128)m * m >= dotp(a, b, b)) || shorterThan(v, m) != shorterThen(v, m)))
            F("shorterThen (%lld,%lld) %lld", v.X, v.Y, m);
    if (l >= 1)
        for (i64 m : { 1, 10, 1000, 40000 })
        {
            const Point2LL n = normal(v, m);
            const double e = 1.5 + m * 0.6 / l;
            if (std::fabs(n.X - v.X * m / l) > e || std::fabs(n.Y - v.Y * m / l) > e)
                F("normal (%lld,%lld) %lld = (%lld,%lld)", v.X, v.Y, m, n.X, n.Y);
        }
    if (! (turn90CCW(v) == Point2LL(-v.Y, v.X)))
        F("turn90CCW");
    for (int deg = -360; deg <= 360; deg += 15)
    {
        const double r = deg * std::numbers::pi / 180, x = v.X * std::cos(r) - v.Y * std::sin(r), y = v.X * std::sin(r) + v.Y * std::cos(r), tol = 0.51 + l * 1e-12;
        const Point2LL q = rotate(v, r);
        if (std::fabs(q.X - x) > tol || std::fabs(q.Y - y) > tol)
            F("rotate (%lld,%lld) by %d = (%lld,%lld)", v.X, v.Y, deg, q.X, q.Y);
        const PointMatrix m((double)deg);
        const Point2LL w = m.apply(v), u = m.unapply(v), i = m.inverse().apply(v);
        // the matrix of an angle: one rotation sense, unapply and inverse undo it
        if (std::fabs(w.X - x) > tol || std::fabs(w.Y - y) > tol)
            F("PointMatrix(%d).apply (%lld,%lld) = (%lld,%lld)", deg, v.X, v.Y, w.X, w.Y);
        const double ux = v.X * std::cos(r) + v.Y * std::sin(r), uy = -v.X * std::sin(r) + v.Y * std::cos(r);
        if (std::fabs(u.X - ux) > tol || std::fabs(u.Y - uy) > tol || std::fabs(i.X - ux) > tol || std::fabs(i.Y - uy) > tol)
            F("PointMatrix(%d).unapply (%lld,%lld) = (%lld,%lld)", deg, v.X, v.Y, u.X, u.Y);
        const Point2LL rot = LA::rotateAround(A, (double)deg).apply(B);
        if (std::fabs(rot.X - (a.x + x)) > tol + 1e-9 * std::fabs((double)a.x) + 1e-9 * std::fabs((double)a.y) + .01 || std::fabs(rot.Y - (a.y + y)) > tol + 1e-9 * std::fabs((double)a.y) + 1e-9 * std::fabs((double)a.x) + .01)
            F("rotateAround (%lld,%lld) %d of (%lld,%lld) = (%lld,%lld)", a.x, a.y, deg, b.x, b.y, rot.X, rot.Y);
    }
    if (l > 0)
    {
        const PointMatrix m(v);
        const Point2LL along = m.apply(v), q = m.unapply(Point2LL(std::llround(l), 0));
        if (std::fabs(along.X - l) > 1 || std::llabs(along.Y) > 1 || std::llabs(q.X - v.X) > 1 || std::llabs(q.Y - v.Y) > 1)
            F("PointMatrix of the vector (%lld,%lld) maps it to (%lld,%lld)", v.X, v.Y, along.X, along.Y);
        const double ang = angle_rad(v), want = std::atan2((double)v.Y, (double)v.X), d = std::remainder(ang - want, 2 * std::numbers::pi);
        if (std::fabs(d) > 1e-12 || ang < 0 || ang >= 2 * std::numbers::pi)
            F("angle of (%lld,%lld)", v.X, v.Y);
        if (std::fabs(std::remainder((double)angle_deg(v) - want * 180 / std::numbers::pi, 360)) > 1e-9)
            F("angle of (%lld,%lld) in degrees", v.X, v.Y);
    }
    for (int t = 0; t <= 8; t++)
    {
        const Point2LL q = lerp(A, B, t / 8.);
        if (std::fabs(q.X - (a.x + (b.x - a.x) * t / 8.)) > 0.51 || std::fabs(q.Y - (a.y + (b.y - a.y) * t / 8.)) > 0.51)
            F("lerp");
    }
}
void three(P a, P b, P c)
{
    const Point2LL A = pt(a), B = pt(b), C = pt(c);
    vh::trans(14);
    const double lab = len(a, b), lbc = len(b, c), lac = len(a, c);
    // --- side of a line, scanning to the right: p = a, line b-c
    {
        const short r = LA::pointLiesOnTheRightOfLine(A, B, C);
        int want = -1;
        if (onSegment(a, b, c))
            want = 0;
        else if ((b.y <= a.y && a.y < c.y) || (c.y <= a.y && a.y < b.y))
        {
            // crossing strictly right of a?
            const int s = sg(cross(b, c, a)) * (c.y > b.y ? 1 : -1);
            want = s > 0 ? 1 : -1; // a left of the upward line
        }
        vh::outcome(want);
        // the upper end belongs to the next segment of an outline
        if (r != want && ! (want == 0 && a.y == std::max(b.y, c.y) && b.y != c.y && r == -1))
            F("pointLiesOnTheRightOfLine " S3 " = %d, not %d", A3, r, want);
    }
    if (sg(LA::pointIsLeftOfLine(A, B, C)) != sg(cross(b, c, a)))
        F("pointIsLeftOfLine " S3, A3);
    if (sg(LA::isAcuteCorner(A, B, C)) != sg(dotp(b, a, c)))
        F("isAcuteCorner " S3, A3);
    // --- projections of a on b-c
    {
        const i128 dp = dotp(b, c, a), l2 = dotp(b, c, c);
        const int want = dp < 0 ? -1 : dp > l2 ? 1 : 0;
        if (LA::pointIsProjectedBeyondLine(A, B, C) != want)
            F("pointIsProjectedBeyondLine " S3 " not %d", A3, want);
        const Point2LL q = LA::getClosestOnLineSegment(A, B, C);
        const double t = l2 == 0 ? 0 : std::clamp((double)dp / (double)l2, 0., 1.);
        if (std::fabs(q.X - (b.x + t * (c.x - b.x))) > 1.01 || std::fabs(q.Y - (b.y + t * (c.y - b.y))) > 1.01)
            F("getClosestOnLineSegment " S3 " = (%lld,%lld)", A3, q.X, q.Y);
        if ((dp <= 0 && ! (q == B)) || (l2 > 0 && dp >= l2 && ! (q == C)))
            F("getClosestOnLineSegment " S3 " misses the end", A3);
        if (l2 > 0)
        {
            const Point2LL w = LA::getClosestOnLine(A, B, C);
            const double u = (double)dp / (double)l2, e = 2.5 + 1.3 * std::fabs(u);
            if (std::fabs(w.X - (b.x + u * (c.x - b.x))) > e || std::fabs(w.Y - (b.y + u * (c.y - b.y))) > e)
                F("getClosestOnLine " S3 " = (%lld,%lld)", A3, w.X, w.Y);
            const double dl = std::fabs((double)cross(b, c, a)) / lbc;
            const double g = LA::getDistFromLine(A, B, C), g2 = LA::getDist2FromLine(A, B, C);
            if (std::fabs(g - dl) > 1.01 + dl * .6 / lbc)
                F("getDistFromLine " S3 " = %g, not %g", A3, g, dl);
            if (std::fabs(std::sqrt(g2) - dl) > 1.01 + dl * .6 / lbc)
                F("getDist2FromLine " S3 " = %g, not %g", A3, g2, dl * dl);
        }
        else
        {
            if (std::fabs(LA::getDistFromLine(A, B, C) - lab) > 1)
                F("getDistFromLine of a line without length");
        }
        int16_t beyond = 77;
        const double g = LA::getDist2FromLineSegment(B, A, C, &beyond), dl = dist(a, b, c);
        if (std::fabs(std::sqrt(g) - dl) > 3)
            F("getDist2FromLineSegment " S3 " = %g, not %g", A3, g, dl * dl);
        if (g != LA::getDist2FromLineSegment(B, A, C))
            F("getDist2FromLineSegment depends on the optional output");
        if (l2 > 0)
        {
            const double along = (double)dp / lbc;
            if ((along < -2 && beyond != -1) || (along > lbc + 2 && beyond != 1) || (along >= 0 && along <= lbc - 1 && beyond != 0) || ((a == b || a == c) && beyond != 0) || (beyond < -1 || beyond > 1))
                F("getDist2FromLineSegment " S3 ": beyond = %d", A3, beyond);
            if ((beyond == -1 && along > 1) || (beyond == 1 && along < lbc - 2))
                F("getDist2FromLineSegment " S3 ": beyond = %d", A3, beyond);
        }
    }
    // --- corner a-b-c
    if (! (a == b) && ! (b == c))
    {
        const double g = LA::getAngleLeft(A, B, C);
        double want = std::atan2((double)(a.y - b.y), (double)(a.x - b.x)) - std::atan2((double)(c.y - b.y), (double)(c.x - b.x));
        if (want < 0)
            want += 2 * std::numbers::pi;
        double d = std::fabs(g - want);
        if (cross(b, a, c) != 0 ? d > 1e-9 : std::min(d, std::fabs(d - 2 * std::numbers::pi)) > 1e-9)
            F("getAngleLeft " S3 " = %g, not %g", A3, g, want);
        if (g < 0 || g > 2 * std::numbers::pi || (cross(b, a, c) == 0 && dotp(b, a, c) > 0 && g != 0))
            F("getAngleLeft " S3 " = %g", A3, g);
        for (i64 m : { 100, 5000 })
        {
            const Point2LL v = LA::getBisectorVector(B, A, C, m);
            const double x = ((a.x - b.x) / lab + (c.x - b.x) / lbc) * m / 2, y = ((a.y - b.y) / lab + (c.y - b.y) / lbc) * m / 2, e = 2 + m * .5 * (.6 / lab + .6 / lbc);
            if (std::fabs(v.X - x) > e || std::fabs(v.Y - y) > e)
                F("getBisectorVector " S3 " = (%lld,%lld)", A3, v.X, v.Y);
        }
    }
    (void)lac;
    // --- horizontal lines through b-c
    {
        const i64 y = a.y;
        auto r = LA::lineHorizontalLineIntersection(B, C, y);
        auto s = LA::segmentHorizontalLineIntersection(B, C, y);
        if (r.has_value() != (b.y != c.y))
            F("lineHorizontalLineIntersection " S3 " has a value: %d", A3, r.has_value());
        const bool in = b.y != c.y && y >= std::min(b.y, c.y) && y <= std::max(b.y, c.y);
        if (s.has_value() != in)
            F("segmentHorizontalLineIntersection " S3 " has a value: %d", A3, s.has_value());
        if (r)
        {
            const Q x = b.x + (Q)(c.x - b.x) * (y - b.y) / (c.y - b.y);
            if (std::fabs((double)(*r - x)) > .6 + std::fabs((double)x) * 1e-9 || (s && *s != *r))
                F("lineHorizontalLineIntersection " S3 " = %lld, not %g", A3, (i64)*r, (double)x);
        }
    }
    // --- point on the segment b-c at a distance from a
    if (lbc >= 1)
        for (i64 m : { (i64)(lab / 2), (i64)lab, (i64)(lab + lbc / 3), (i64)(lbc / 2), (i64)(3 * lbc) })
        {
            Point2LL r(0, 0);
            const bool ok = LA::getPointOnLineWithDist(A, B, C, m, r);
            const double ax = (double)dotp(b, c, a) / lbc, px = std::fabs((double)cross(b, c, a)) / lbc;
            const double eax = 1.5 + .6 * std::fabs(ax) / lbc + (lbc < 50 ? .02 * std::fabs(ax) : 0);
            const double epx = px > 4 * eax ? 2 + std::fabs(ax) * eax / px * 1.5 : 2 + std::sqrt(2 * std::fabs(ax) * eax);
            if (ok)
            {
                const double off = dist(P2(r), b, c), dd = len(P2(r), a);
                if (off > 2.5 || std::fabs(dd - m) > eax + epx + 3)
                    F("getPointOnLineWithDist " S3 " distance %lld = (%lld,%lld), at distance %g", A3, m, r.X, r.Y, dd);
            }
            const double xr = m > px ? std::sqrt((double)m * m - px * px) : -1;
            const double marg = eax + 3 + (xr > 0 ? (px + 1) * epx / std::max(xr, 1.) : 1e9);
            const double r1 = ax - xr, r2 = ax + xr;
            const bool in1 = xr >= 0 && r1 > marg && r1 < lbc - marg, in2 = xr >= 0 && r2 > marg && r2 < lbc - marg;
            if ((in1 || in2) && m > px + epx + 3 && ! ok)
                F("getPointOnLineWithDist " S3 " distance %lld finds nothing", A3, m);
            if (in1 && in2 && ok && m > px + epx + 3 && len(P2(r), b) > r1 + marg + 4 && r2 - r1 > 4 * marg + 10)
                F("getPointOnLineWithDist " S3 " distance %lld = (%lld,%lld): not the one closer to the start", A3, m, r.X, r.Y);
        }
    uint64_t h = vh::mix(vh::mix(sg(cross(a, b, c)) + 1, sg(dotp(b, a, c)) + 1), vh::mix(sg(dotp(a, b, c)) + 1, onSegment(a, b, c)));
    vh::state(vh::mix(h, (uint64_t)(lab / 7) * 131 + (uint64_t)(lbc / 7)));
}
void four(P a, P b, P c, P d, bool small)
{
    const Point2LL A = pt(a), B = pt(b), C = pt(c), D = pt(d);
    vh::trans(6);
    const i128 den = (i128)(b.x - a.x) * (d.y - c.y) - (i128)(b.y - a.y) * (d.x - c.x);
    float t = -7, u = -7;
    const bool line = LA::lineLineIntersection(A, B, C, D, t, u);
    if (line != (den != 0))
    {
        // single precision: nearly parallel lines may count as parallel
        const double rel = std::fabs((double)den) / (std::fabs((double)(b.x - a.x) * (d.y - c.y)) + std::fabs((double)(b.y - a.y) * (d.x - c.x)) + 1);
        if (den == 0 || small || rel > 1e-6)
            F("lineLineIntersection " S4 " %d", A4, line);
    }
    const bool proper = sg(cross(a, b, c)) * sg(cross(a, b, d)) < 0 && sg(cross(c, d, a)) * sg(cross(c, d, b)) < 0;
    const bool touch = ! proper && (onSegment(a, c, d) || onSegment(b, c, d) || onSegment(c, a, b) || onSegment(d, a, b));
    vh::outcome(10 + proper * 2 + touch);
    if (den != 0)
    {
        const Q T = (Q)((i128)(c.x - a.x) * (d.y - c.y) - (i128)(c.y - a.y) * (d.x - c.x)) / (Q)den;
        const Q U = (Q)((i128)(c.x - a.x) * (b.y - a.y) - (i128)(c.y - a.y) * (b.x - a.x)) / (Q)den;
        const double mags = (std::fabs((double)(a.x - c.x)) + std::fabs((double)(b.x - a.x))) * std::fabs((double)(d.y - c.y)) + (std::fabs((double)(a.y - c.y)) + std::fabs((double)(b.y - a.y))) * std::fabs((double)(d.x - c.x));
        const double magu = (std::fabs((double)(a.x - c.x)) + std::fabs((double)(d.x - c.x))) * std::fabs((double)(b.y - a.y)) + (std::fabs((double)(a.y - c.y)) + std::fabs((double)(d.y - c.y))) * std::fabs((double)(b.x - a.x));
        const double k = 4e-7 / std::fabs((double)den);
        const double et = (mags * k + 1e-6) * (1 + std::fabs((double)T)), eu = (magu * k + 1e-6) * (1 + std::fabs((double)U));
        if (line && (std::fabs(t - (double)T) > et || std::fabs(u - (double)U) > eu))
            F("lineLineIntersection " S4 ": parameters %g %g, not %g %g", A4, t, u, (double)T, (double)U);
        float t2, u2;
        const bool s = LA::segmentSegmentIntersection(A, B, C, D, t2, u2);
        const bool in = T >= 0 && T <= 1 && U >= 0 && U <= 1;
        const bool border = ! small && (std::fabs((double)T) <= et || std::fabs((double)T - 1) <= et || std::fabs((double)U) <= eu || std::fabs((double)U - 1) <= eu);
        if (s != in && ! border)
            F("segmentSegmentIntersection " S4 " = %d", A4, s);
        Point2LL o(123, 321);
        const bool got = LA::lineLineIntersection(A, B, C, D, o);
        const double x = (double)(a.x + (Q)(b.x - a.x) * T), y = (double)(a.y + (Q)(b.y - a.y) * T);
        if (got)
        {
            const double e = 1.01 + len(a, b) * et;
            if (std::fabs(o.X - x) > e || std::fabs(o.Y - y) > e)
                F("lineLineIntersection " S4 " = (%lld,%lld), not (%g,%g)", A4, o.X, o.Y, x, y);
        }
        else if (line && std::fabs(x) < 2.1e9 && std::fabs(y) < 2.1e9)
            F("lineLineIntersection " S4 " not found at (%g,%g)", A4, x, y);
        else if (! (o == Point2LL(123, 321)))
            F("lineLineIntersection " S4 ": output changed", A4);
    }
    else
    {
        float t2, u2;
        if (LA::segmentSegmentIntersection(A, B, C, D, t2, u2))
            F("segmentSegmentIntersection " S4 ": parallel lines intersect", A4);
    }
    // --- distance between segments that do not cross
    const double dd = std::min({ dist(a, c, d), dist(b, c, d), dist(c, a, b), dist(d, a, b) });
    if (! proper)
    {
        const double g = std::sqrt((double)LA::getDist2BetweenLineSegments(A, B, C, D));
        if (std::fabs(g - dd) > 3)
            F("getDist2BetweenLineSegments " S4 " = %g^2, not %g^2", A4, g, dd);
        if (! LA::lineSegmentsAreCloserThan(A, B, C, D, (i64)dd + 4) || (dd > 5 && LA::lineSegmentsAreCloserThan(A, B, C, D, (i64)dd - 4)))
            F("lineSegmentsAreCloserThan " S4, A4);
        const auto cc = LA::getClosestConnection(A, B, C, D);
        if (std::fabs(len(P2(cc.first), P2(cc.second)) - dd) > 2.5 || dist(P2(cc.first), a, b) > 1.6 || dist(P2(cc.second), c, d) > 1.6)
            F("getClosestConnection " S4 " = (%lld,%lld) (%lld,%lld), distance %g", A4, cc.first.X, cc.first.Y, cc.second.X, cc.second.Y, dd);
    }
    // --- collision with a horizontal segment
    if (a.y == b.y && a.x <= b.x)
    {
        const bool r = LA::lineSegmentsCollide(A, B, C, D);
        bool sure = true;
        if (c.y != d.y && ((c.y <= a.y) != (d.y <= a.y) || c.y == a.y || d.y == a.y))
        {
            const double x = c.x + (double)(d.x - c.x) * (double)(a.y - c.y) / (double)(d.y - c.y);
            sure = x == std::floor(x) || (std::fabs(x - a.x) >= 1 && std::fabs(x - b.x) >= 1);
        }
        if (sure && r != (proper || touch))
            F("lineSegmentsCollide " S4 " = %d", A4, r);
    }
    // --- corner a b c, query d
    if (! (a == b) && ! (b == c) && ! (d == b))
    {
        const double ab = std::atan2((double)(a.y - b.y), (double)(a.x - b.x)), cb = std::atan2((double)(c.y - b.y), (double)(c.x - b.x)), qb = std::atan2((double)(d.y - b.y), (double)(d.x - b.x));
        auto pos = [](double v) { v = std::fmod(v, 2 * std::numbers::pi); return v < 0 ? v + 2 * std::numbers::pi : v; };
        const double open = pos(ab - cb), q = pos(qb - cb), e = 2e-3;
        const bool clear = open > e && open < 2 * std::numbers::pi - e && q > e && q < 2 * std::numbers::pi - e && std::fabs(q - open) > e;
        if (clear && len(a, b) > 5 && len(b, c) > 5 && LA::isInsideCorner(A, B, C, D) != (q < open))
            F("isInsideCorner " S4 " not %d", A4, q < open);
    }
}
struct Em
{
    i64 a, b, c, d, tx, ty;
    const char* name;
    bool small;
    P operator()(i64 x, i64 y) const
    {
        return { a * x + b * y + tx, c * x + d * y + ty };
    }
};
const std::vector<Em>& ems()
{
    static const std::vector<Em> v = {
        { 1, 0, 0, 1, 0, 0, "unit", true },
        { 10, 0, 0, 10, -20, -20, "ten", true },
        { 400, 0, 0, 400, 1, -1, "wall", true },
        { 37, 11, -8, 29, 5, 7, "skew", true },
        { 0, 33, -50, 0, 999983, -777777, "farturn", true },
        { -7919, 1001, 313, 6007, -123457, 98765, "big", false },
        { 50021, 3, -11, 49999, 1, 2, "bed", false },
        { 1000, 999, 1001, 1000, 3, 5, "sliver", false },
    };
    return v;
}
void crossing(P a, P b, P c, P d)
{
    const Point2LL A = pt(a), B = pt(b), C = pt(c), D = pt(d);
    if (! LA::lineSegmentsAreCloserThan(A, B, C, D, 1) || LA::getDist2BetweenLineSegments(A, B, C, D) > 4)
        F("crossing segments " S4 " have a distance of %lld^2", A4, (i64)std::sqrt((double)LA::getDist2BetweenLineSegments(A, B, C, D)));
}
void explore()
{
    const bool T = vh::thorough();
    for (const Em& e : ems())
    {
        const int n = T ? 10 : 7;
        for (int i = 0; i < n * n; i++)
        {
            if (! vh::begin("pairs %s %d", e.name, i))
                continue;
            for (int j = 0; j < n * n && ! vh::g.case_failed; j++)
                two(e(i % n, i / n), e(j % n, j / n));
        }
        const int m = T ? 7 : 5;
        for (int i = 0; i < m * m; i++)
            for (int j = 0; j < m * m; j++)
            {
                if (! vh::begin("triples %s %d %d", e.name, i, j))
                    continue;
                for (int k = 0; k < m * m && ! vh::g.case_failed; k++)
                    three(e(i % m, i / m), e(j % m, j / m), e(k % m, k / m));
            }
        const int q = T ? 7 : 5;
        for (int i = 0; i < q * q; i++)
            for (int j = 0; j < q * q; j++)
            {
                if (! vh::begin("quadruples %s %d %d", e.name, i, j))
                    continue;
                for (int k = 0; k < q * q; k++)
                    for (int l = 0; l < q * q && ! vh::g.case_failed; l++)
                        four(e(i % q, i / q), e(j % q, j / q), e(k % q, k / q), e(l % q, l / q), e.small);
            }
        if (vh::begin("distance of crossing segments %s", e.name))
            for (int k = 0; k < 3; k++)
                crossing(e(0, k), e(20, 20 - k), e(0, 20), e(20, 0));
    }
    // unequal scales: long lines with close ends
    for (int i = 0; i < 16; i++)
        for (int j = 0; j < 16; j++)
        {
            if (! vh::begin("long %d %d", i, j))
                continue;
            const i64 X[4] = { 0, 3, 100000, 100002 }, Y[4] = { 0, 1, 5, 70000 };
            for (int k = 0; k < 16; k++)
            {
                three({ X[i % 4], Y[i / 4] }, { X[j % 4], Y[j / 4] }, { X[k % 4], Y[k / 4] });
                for (int l = 0; l < 16; l++)
                    four({ X[i % 4], Y[i / 4] }, { X[j % 4], Y[j / 4] }, { X[k % 4], Y[k / 4] }, { X[l % 4], Y[l / 4] }, false);
            }
        }
    // integer divisions, angles, comparisons with slack, sloped widths
    for (int v = -40; v <= 40; v++)
    {
        if (! vh::begin("numbers %d", v))
            continue;
        for (int w = -24; w <= 24; w++)
        {
            vh::trans();
            if (w)
            {
                const double q = (double)v / w;
                VH_CHECK(floor_divide_signed(v, w) == (i64)std::floor(q), "floor of %d / %d", v, w);
                VH_CHECK(ceil_divide_signed(v, w) == (i64)std::ceil(q), "ceiling of %d / %d", v, w);
                VH_CHECK(std::fabs(round_divide_signed(v, w) - q) <= .5, "rounding %d / %d", v, w);
                if (v >= 0 && w > 0)
                {
                    VH_CHECK(std::fabs((double)round_divide(v, w) - q) <= .5, "rounding %d / %d", v, w);
                    VH_CHECK(round_up_divide(v, w) == (uint64_t)std::ceil(q), "rounding up %d / %d", v, w);
                }
            }
            const AngleDegrees x(v * 15.), y(w * 30.);
            auto near = [](double p, double q, double full) { return std::fabs(std::remainder(p - q, full)) < 1e-9 && p >= 0 && p < full; };
            VH_CHECK(near(x, v * 15., 360) && near(x + y, v * 15. + w * 30., 360) && near(x - y, v * 15. - w * 30., 360), "degrees %d %d", v * 15, w * 30);
            AngleDegrees z = x;
            z += y;
            VH_CHECK(near(z, v * 15. + w * 30., 360), "degrees += %d %d", v * 15, w * 30);
            z -= y;
            VH_CHECK(near(z, v * 15., 360), "degrees -= %d %d", v * 15, w * 30);
            const double pi = std::numbers::pi;
            const AngleRadians r(v * pi / 12), s(w * pi / 6);
            VH_CHECK(near(r + s, v * pi / 12 + w * pi / 6, 2 * pi) || std::fabs((double)(r + s) - 2 * pi) < 1e-9, "radians + %d %d", v, w);
            VH_CHECK(near(r - s, v * pi / 12 - w * pi / 6, 2 * pi) || std::fabs((double)(r - s) - 2 * pi) < 1e-9, "radians - %d %d", v, w);
            VH_CHECK(std::fabs(std::remainder((double)AngleDegrees(r) - v * 15., 360)) < 1e-9, "radians to degrees %d", v);
            VH_CHECK(std::fabs(std::remainder((double)AngleRadians(x) - v * pi / 12, 2 * pi)) < 1e-9, "degrees to radians %d", v);
            // comparisons with slack are consistent with each other
            VH_CHECK(fuzzy_equal((coord_t)v, (coord_t)w) == (std::abs(v - w) <= EPSILON), "fuzzy_equal %d %d", v, w);
            VH_CHECK(fuzzy_not_equal((coord_t)v, (coord_t)w) == ! fuzzy_equal((coord_t)v, (coord_t)w), "fuzzy_not_equal");
            VH_CHECK(fuzzy_is_greater((coord_t)v, (coord_t)w) == (v - w > EPSILON), "fuzzy_is_greater %d %d", v, w);
            VH_CHECK(fuzzy_is_lesser((coord_t)v, (coord_t)w) == fuzzy_is_greater((coord_t)w, (coord_t)v), "fuzzy_is_lesser %d %d", v, w);
            VH_CHECK(fuzzy_is_greater_or_equal((coord_t)v, (coord_t)v) && fuzzy_is_lesser_or_equal((coord_t)v, (coord_t)v), "fuzzy or equal %d", v);
            VH_CHECK(! fuzzy_is_greater((coord_t)v, (coord_t)w) || (fuzzy_is_greater_or_equal((coord_t)v, (coord_t)w) && ! fuzzy_is_lesser_or_equal((coord_t)v, (coord_t)w)), "fuzzy order %d %d", v, w);
            // rounding of millimetres to microns
            const double mm = v * .0135 + w * 17.25;
            VH_CHECK(std::fabs(MM2INT(mm) - mm * 1000) <= .5 + 1e-6, "MM2INT %g", mm);
            VH_CHECK(std::fabs(INT2MM(v * 1000 + w) - (v * 1000 + w) / 1000.) < 1e-12, "INT2MM");
            if (v > 0 && w > 0)
                for (double mag : { .5, 1., 2., 4. })
                {
                    const i64 bw = v * 1000, bh = w * 500;
                    i64 prev = bw;
                    VH_CHECK(LA::getSlopedWidth(bw, bh, mag, 0) == bw && LA::getSlopedWidth(bw, bh, mag, bh) == 0, "sloped width ends");
                    for (int k = 1; k <= 8; k++)
                    {
                        const i64 g = LA::getSlopedWidth(bw, bh, mag, bh * k / 8);
                        VH_CHECK(g <= prev && g >= 0, "sloped width %lld %lld grows", bw, bh);
                        prev = g;
                    }
                }
        }
    }
}
} // namespace
int main(int argc, char** argv)
{
    return vh::main_(argc, argv, explore, 4);
}
