// C15: set operations and offsets on every pair of small shapes, against exact cell sets.
#include "shapes.h"
#include "geometry/ClosedLinesSet.h"
#include "geometry/LinesSet.h"
#include "geometry/MixedLinesSet.h"
#include "geometry/Polygon.h"
#include "geometry/OpenLinesSet.h"
#include "geometry/OpenPolyline.h"
#include "geometry/ClosedPolyline.h"
#include "utils/AABB.h"
#include "utils/linearAlg2D.h"

using namespace cura;
using namespace vs;

namespace
{
const Complex* C;
const Embed* E;
std::string where;

void expect(const Shape& r, uint64_t mask, const char* op)
{
    vh::trans();
    const Paths ps = fromShape(r);
    vh::state(hashPaths(ps));
    const uint64_t got = cover(*C, ps, *E);
    if (got != mask)
        vh::fail("%s (%s) covers cells %llx instead of %llx: %s", op, where.c_str(), (unsigned long long)got, (unsigned long long)mask, str(ps).c_str());
    // more points of every cell, near its corners
    for (size_t i = 0; i < C->cells.size() && got == mask; i++)
    {
        const P c = center(*C, i, *E);
        for (int v : C->cells[i])
        {
            const P e0 = (*E)(C->v[v]);
            const P q{ c.x + ((e0.x - E->tx) / C->den + E->tx - c.x) * 9 / 10, c.y + ((e0.y - E->ty) / C->den + E->ty - c.y) * 9 / 10 };
            if (evenOdd(q, ps) != (bool)(mask >> i & 1))
                vh::fail("%s: point (%lld,%lld) of cell %zu is wrong: %s", op, q.x, q.y, i, str(ps).c_str());
        }
    }
    // The Clipper library orients some outlines wrongly where results touch themselves at a vertex, and in symmetric
    // differences; orientation and hence signed area is required only elsewhere.
    if (C->cells[0].size() == 3 || strstr(op, "symmetric") || strstr(op, "even-odd") || strstr(op, "simplification") || ((C->cells.size() == 9 && ! unambiguous(3, 3, mask)) || (C->cells.size() == 12 && ! unambiguous(4, 3, mask))))
        return;
    const i128 want = maskArea2(*C, mask, *E), have = area2(ps);
    if (want != have)
        vh::fail("%s: twice the area is %s instead of %s (holes negative): %s", op, s128(have).c_str(), s128(want).c_str(), str(ps).c_str());
    if (std::abs(r.area() - (double)want / 2) > 1e-9 * std::abs((double)want) + 0.6)
        vh::fail("%s: reported area %f instead of %f", op, r.area(), (double)want / 2);
    if (mask)
    {
        AABB box(r);
        i64 x0 = 1LL << 60, y0 = x0, x1 = -x0, y1 = -x0;
        for (size_t i = 0; i < C->cells.size(); i++)
            if (mask >> i & 1)
                for (int v : C->cells[i])
                {
                    const P p = (*E)(C->v[v]);
                    const i64 x = (p.x - E->tx) / C->den + E->tx, y = (p.y - E->ty) / C->den + E->ty;
                    x0 = std::min(x0, x);
                    x1 = std::max(x1, x);
                    y0 = std::min(y0, y);
                    y1 = std::max(y1, y);
                }
        if (box.min_.X != x0 || box.min_.Y != y0 || box.max_.X != x1 || box.max_.Y != y1)
            vh::fail("%s: bounding box (%lld,%lld)-(%lld,%lld) instead of (%lld,%lld)-(%lld,%lld)", op, (i64)box.min_.X, (i64)box.min_.Y, (i64)box.max_.X, (i64)box.max_.Y, x0, y0, x1, y1);
    }
    else if (! ps.empty() && area2(ps) == 0)
    {
        for (auto& p : ps)
            if (! p.empty())
                vh::fail("%s: an empty set comes out as degenerate outlines %s", op, str(ps).c_str());
    }
}
bool same(const Shape& a, const Paths& b)
{
    return fromShape(a) == b;
}
void pairOps(uint64_t a, uint64_t b, int va, int vb)
{
    const Paths pa = trace(*C, a, *E, va), pb = trace(*C, b, *E, vb);
    const Shape A = toShape(pa), B = toShape(pb);
    where = "second operand " + std::to_string(b);
    if (std::abs(A.area() - (double)maskArea2(*C, a, *E) / 2) > 1e-9 * A.area() + 0.6)
        vh::fail("reported area %f of %s", A.area(), str(pa).c_str());
    expect(A.unionPolygons(B), a | b, "union");
    expect(A.intersection(B), a & b, "intersection");
    expect(A.difference(B), a & ~b, "difference");
    expect(A.xorPolygons(B), a ^ b, "symmetric difference");
    Shape both = A;
    both.push_back(B);
    expect(both.unionPolygons(), a | b, "union of overlapping outlines");
    expect(both.processEvenOdd(), a ^ b, "even-odd processing");
    expect(both.execute(), a ^ b, "even-odd execution");
    Shape simple = both;
    simple.simplify(ClipperLib::pftNonZero);
    expect(simple, a | b, "simplification to non-overlapping outlines");
    if (B.size() == 1)
    {
        expect(A.difference(B[0]), a & ~b, "difference with one outline");
        expect(A.unionPolygons(B[0]), a | b, "union with one outline");
        if (A.size() == 1)
            expect(A[0].intersection(B[0]), a & b, "intersection of two outlines");
    }
    if (! same(A, pa) || ! same(B, pb))
        vh::fail("an operation changed its operand");
    vh::outcome(vh::mix(a, b));
}
// total length of lines in set
double total(const OpenLinesSet& l)
{
    double s = 0;
    for (const auto& x : l)
        for (size_t i = 1; i < x.size(); i++)
            s += std::hypot((double)(x[i].X - x[i - 1].X), (double)(x[i].Y - x[i - 1].Y));
    return s;
}
// Lines with corners, open ones and closed ones, cut with the shape by each of the functions: what comes out lies on
// what went in, on the right side of the shape, nothing is missing, and nothing is there twice. Only lines that don't
// touch each other, so that they may be told apart.
void bentLines(int w, int h, uint64_t a, const Shape& A)
{
    auto pt = [&](i64 x12, i64 y12)
    {
        return Point2LL((E->a * x12 + E->b * y12) / 12 + E->tx, (E->c * x12 + E->d * y12) / 12 + E->ty);
    };
    const Paths pa = fromShape(A);
    Shape border;
    {
        Polygon b;
        for (const Point2LL& p : { pt(-60, -60), pt(12 * w + 60, -60), pt(12 * w + 60, 12 * h + 60), pt(-60, 12 * h + 60) })
            b.push_back(p);
        border.push_back(b);
    }
    const double ux = std::hypot((double)E->a, (double)E->c), uy = std::hypot((double)E->b, (double)E->d);
    // a ring through the middles of the cells of a block, starting at any corner, either way around, and without its first n sides
    for (int y0 = -1; y0 < 1; y0++)
        for (int size = 1; size <= 2; size++)
            for (int start = 0; start < 4; start++)
                for (int dir = 0; dir < 2; dir++)
                    for (int gone = 0; gone < 3; gone++)
                    {
                        const int n = size + 1;
                        const std::vector<Point2LL> q{ pt(6, 12 * y0 + 6), pt(6 + 12 * size, 12 * y0 + 6), pt(6 + 12 * size, 12 * (y0 + size) + 6), pt(6, 12 * (y0 + size) + 6) };
                        std::vector<Point2LL> p;
                        for (int k = 0; k < 4; k++)
                            p.push_back(q[((dir ? -k : k) + start + 4) % 4]);
                        if (gone == 0)
                            p.push_back(p[0]);
                        if (gone == 2)
                            p.pop_back();
                        OpenPolyline open;
                        for (auto& x : p)
                            open.push_back(x);
                        // what is inside
                        double in = 0, all = 0;
                        for (size_t i = 1; i < p.size(); i++)
                            for (int k = 0; k < 24 * n; k++)
                            {
                                const double t = (k + 0.5) / (24 * n);
                                const P m{ (i64)std::llround(p[i - 1].X + t * (p[i].X - p[i - 1].X)), (i64)std::llround(p[i - 1].Y + t * (p[i].Y - p[i - 1].Y)) };
                                const double l = std::hypot((double)(p[i].X - p[i - 1].X), (double)(p[i].Y - p[i - 1].Y)) / (24 * n);
                                all += l;
                                in += evenOdd(m, pa) ? l : 0;
                            }
                        auto judge = [&](const char* what, const auto& r, bool inside, double want)
                        {
                            vh::trans();
                            double len = 0;
                            for (const auto& lp : r)
                            {
                                const Polyline& l = [&]() -> const Polyline&
                                {
                                    if constexpr (requires { *lp; })
                                        return *lp;
                                    else
                                        return lp;
                                }();
                                std::vector<P> v;
                                for (auto& x : l)
                                    v.push_back({ x.X, x.Y });
                                if (l.hasClosingSegment())
                                    v.push_back(v[0]);
                                for (size_t i = 1; i < v.size(); i++)
                                {
                                    len += std::hypot((double)(v[i].x - v[i - 1].x), (double)(v[i].y - v[i - 1].y));
                                    for (int k = 1; k < 4; k++)
                                    {
                                        const P m{ v[i - 1].x + (v[i].x - v[i - 1].x) * k / 4, v[i - 1].y + (v[i].y - v[i - 1].y) * k / 4 };
                                        double d = 1e18;
                                        for (size_t j = 1; j < p.size(); j++)
                                            d = std::min(d, dist(m, { p[j - 1].X, p[j - 1].Y }, { p[j].X, p[j].Y }));
                                        if (d > 12)
                                            vh::fail("%s passes (%lld,%lld), %.0f from the line that was cut (first corner %d, direction %d, %d sides, block %d %d)", what, m.x, m.y, d, start, dir, 4 - gone, y0, size);
                                        if (evenOdd(m, pa) != inside && distBorder(m, pa) > 11)
                                            vh::fail("%s passes (%lld,%lld), %s the shape", what, m.x, m.y, inside ? "outside of" : "inside");
                                    }
                                }
                            }
                            if (std::abs(len - want) > 60 + 8 * (ux + uy) / 144)
                                vh::fail("%s is %.0f long instead of %.0f (first corner %d, direction %d, %d sides, block %d %d)", what, len, want, start, dir, 4 - gone, y0, size);
                        };
                        const OpenLinesSet opens{ { open } };
                        judge("the intersection with an open line", A.intersection(opens), true, in);
                        judge("the difference of an open line", opens.difference(A), false, all - in);
                        judge("the difference of segments", opens.splitIntoSegments().difference(A), false, all - in);
                        MixedLinesSet mixed;
                        mixed.push_back(open);
                        judge("the intersection of a mixed set", mixed.intersection(A), true, in);
                        judge("the difference of a mixed set", mixed.difference(A), false, all - in);
                        judge("the difference of a mixed set within a border", mixed.difference(A).intersection(border), false, all - in);
                        if (gone == 0)
                            for (bool explicitly : { false, true })
                            {
                                std::vector<Point2LL> c = p;
                                if (! explicitly)
                                    c.pop_back();
                                ClosedLinesSet closed;
                                closed.emplace_back(ClipperLib::Path(c), explicitly);
                                judge("the difference of a closed line", closed.difference(A), false, all - in);
                                judge("the difference of a closed line within a border", closed.difference(A).intersection(border), false, all - in);
                                judge("the intersection of a closed line", closed.intersection(A), true, in);
                                MixedLinesSet m2;
                                m2.push_back(closed);
                                judge("the intersection of a mixed set with a closed line", m2.intersection(A), true, in);
                            }
                        if (vh::g.case_failed)
                            return;
                    }
}
// lines through the middle of cell rows and columns, clipped by the shape
void clipLines(int w, int h, uint64_t a, i64 u, int va)
{
    const Shape A = toShape(trace(*C, a, *E, va));
    auto pt = [&](i64 x12, i64 y12) // in twelfths of a cell
    {
        return Point2LL((E->a * x12 + E->b * y12) / 12 + E->tx, (E->c * x12 + E->d * y12) / 12 + E->ty);
    };
    (void)u;
    const double ux = std::hypot((double)E->a, (double)E->c), uy = std::hypot((double)E->b, (double)E->d);
    OpenLinesSet all;
    ClosedLinesSet rings;
    double want = 0, ring_want = 0;
    for (int y = 0; y < h; y++)
    {
        OpenPolyline l;
        l.push_back(pt(-12, 12 * y + 6));
        l.push_back(pt(12 * w + 12, 12 * y + 6));
        all.push_back(l);
        for (int x = 0; x < w; x++)
            want += (a >> (y * w + x) & 1) ? ux : 0;
    }
    for (int x = 0; x < w; x++)
    {
        OpenPolyline l; // with a vertex in every cell
        for (int y = -1; y <= h; y++)
            l.push_back(pt(12 * x + 4, 12 * y + 6));
        all.push_back(l);
        for (int y = 0; y < h; y++)
            want += (a >> (y * w + x) & 1) ? uy : 0;
    }
    // closed rings through cell thirds around every 2x2 block
    for (int y = 0; y + 1 < h; y++)
        for (int x = 0; x + 1 < w; x++)
        {
            ClosedPolyline r(true);
            r.push_back(pt(12 * x + 6, 12 * y + 6));
            r.push_back(pt(12 * x + 18, 12 * y + 6));
            r.push_back(pt(12 * x + 18, 12 * y + 18));
            r.push_back(pt(12 * x + 6, 12 * y + 18));
            rings.emplace_back(r.getPoints(), false);
            for (int dy = 0; dy < 2; dy++)
                for (int dx = 0; dx < 2; dx++)
                    ring_want += (a >> ((y + dy) * w + x + dx) & 1) ? (ux + uy) / 2 : 0;
        }
    const double len0 = total(all);
    for (int mode = 0; mode < 4; mode++)
    {
        const OpenLinesSet r = A.intersection(all, mode & 1, 10, mode & 2);
        vh::trans();
        if (std::abs(total(r) - want) > 12.0 * (w + h) + (mode & 1 ? 60 : 0))
            vh::fail("clipped lines are %.1f long instead of %.1f (mode %d)", total(r), want, mode);
        for (const auto& l : r)
            for (size_t i = 1; i < l.size(); i++)
            {
                const P m{ (l[i].X + l[i - 1].X) / 2, (l[i].Y + l[i - 1].Y) / 2 };
                if (! evenOdd(m, fromShape(A)) && distBorder(m, fromShape(A)) > 11)
                    vh::fail("a clipped line leaves the shape at (%lld,%lld)", m.x, m.y);
            }
        const OpenLinesSet rr = A.intersection(rings, mode & 1, 10, mode & 2);
        if (std::abs(total(rr) - ring_want) > 24.0 * w * h + (mode & 1 ? 60 : 0))
            vh::fail("clipped rings are %.1f long instead of %.1f (mode %d)", total(rr), ring_want, mode);
    }
    if (total(all) != len0)
        vh::fail("clipping changed the lines");
    bentLines(w, h, a, A);
}
// axis-aligned shapes: mitred offsets are exact square dilations/erosions
void orthoOffset(int w, int h, uint64_t a, i64 u, int va)
{
    const Paths pa = trace(*C, a, *E, va);
    const Shape A = toShape(pa);
    auto solid = [&](int x, int y) { return x >= 0 && y >= 0 && x < w && y < h && (a >> (y * w + x) & 1); };
    // sub-grid of thirds: cell (x,y) has 3x3 sub-cells; distance k*u/3 <=> k sub-cells
    const int W = 3 * (w + 4), H = 3 * (h + 4);
    auto sub = [&](int X, int Y) { return solid((X >= 0 ? X / 3 : -1) - 2, (Y >= 0 ? Y / 3 : -1) - 2); };
    for (int k = -4; k <= 4; k++)
    {
        Paths want_cells;
        i64 count = 0;
        std::vector<char> m(W * H, 0);
        for (int Y = 0; Y < H; Y++)
            for (int X = 0; X < W; X++)
            {
                bool v = k < 0;
                for (int dy = -std::abs(k); dy <= std::abs(k); dy++)
                    for (int dx = -std::abs(k); dx <= std::abs(k); dx++)
                        k < 0 ? v &= sub(X + dx, Y + dy) : v |= sub(X + dx, Y + dy);
                m[Y * W + X] = v;
                count += v;
            }
        const Shape r = A.offset(k * u / 3);
        vh::trans();
        const Paths ps = fromShape(r);
        vh::state(hashPaths(ps));
        const double cell2 = 2.0 * (u / 3) * (u / 3);
        if (std::abs((double)area2(ps) - count * cell2) > 1e-6 * cell2)
            vh::fail("offset by %d/3 cell: area %.3f sub-cells instead of %lld: %s", k, (double)area2(ps) / cell2, count, str(ps).c_str());
        for (int Y = 0; Y < H; Y++)
            for (int X = 0; X < W; X++)
            {
                const i64 px = 2 * X + 1 - 12, py = 2 * Y + 1 - 12; // in sixths of a cell
                const P q{ (E->a * px + E->b * py) / 6 + E->tx, (E->c * px + E->d * py) / 6 + E->ty };
                if (evenOdd(q, ps) != (bool)m[Y * W + X])
                {
                    vh::fail("offset by %d/3 cell: point (%lld,%lld) is %s: %s", k, q.x, q.y, m[Y * W + X] ? "missing" : "covered", str(ps).c_str());
                    return;
                }
            }
        if (! same(A, pa))
            vh::fail("offsetting changed its operand");
    }
    // band between two offsets
    const Shape tube = A.createTubeShape(u / 3, u / 3);
    const i128 d = area2(fromShape(A.offset(u / 3))) - area2(fromShape(A.offset(-u / 3)));
    if (area2(fromShape(tube)) != d)
        vh::fail("the band around the outline has area %f instead of %f", (double)area2(fromShape(tube)) / 2, (double)d / 2);
}
// any shape: round offsets are the points within the distance
void roundOffset(uint64_t a, i64 u, int va, const std::vector<P>& samples)
{
    const Paths pa = trace(*C, a, *E, va);
    const Shape A = toShape(pa);
    if (A.empty())
        return;
    for (i64 d : { u / 4, -u / 4, u, -u / 8 })
        for (auto jt : { ClipperLib::jtRound, ClipperLib::jtMiter, ClipperLib::jtSquare })
        {
            const Paths ps = fromShape(A.offset(d, jt));
            vh::trans();
            vh::state(hashPaths(ps));
            const double reach = jt == ClipperLib::jtRound ? 1.0 : jt == ClipperLib::jtMiter ? 2.0 : 1.5;
            for (const P& q : samples)
            {
                const bool in = evenOdd(q, pa);
                const double db = distBorder(q, pa);
                const bool r = evenOdd(q, ps);
                bool must_in, must_out;
                if (d > 0)
                {
                    must_in = in || db < d - 12;
                    must_out = ! in && db > reach * d + 12;
                }
                else
                {
                    must_in = in && db > reach * -d + 12;
                    must_out = ! in || db < -d - 12;
                }
                if ((must_in && ! r) || (must_out && r))
                {
                    vh::fail("offset by %lld (join %d): point (%lld,%lld) at distance %.1f from the outline (%s) is %s: %s from %s", d, (int)jt, q.x, q.y, db, in ? "inside" : "outside", r ? "covered" : "missing", str(ps).c_str(),
                             str(pa).c_str());
                    return;
                }
            }
        }
}
uint64_t rev(uint64_t m, int n)
{
    uint64_t r = 0;
    for (int i = 0; i < n; i++)
        r |= (m >> i & 1) << (n - 1 - i);
    return r;
}
void explore()
{
    const bool T = vh::thorough();
    const i64 u = 1200;
    const auto es = embeds(u);
    struct Cfg
    {
        const char* name;
        Complex c;
        int w, h;
    };
    const std::vector<Cfg> cfgs{ { "quad4x3", quads(4, 3), 4, 3 }, { "quad3x3", quads(3, 3), 3, 3 }, { "tri2x2", tris2(2, 2), 2, 2 }, { "fan2x1", tris(2, 1), 2, 1 } };
    for (const Cfg& cf : cfgs)
    {
        if (cf.c.cells.size() > 9 && ! T)
            continue;
        for (size_t ei = 0; ei < es.size(); ei++)
        {
            const int n = (int)cf.c.cells.size();
            // pairs: every first operand is a case, all second operands inside; embeddings rotate unless thorough
            for (uint64_t a = 0; a < (1ull << n); a++)
            {
                if (! vh::begin("pairs %s %s a=%llx", cf.name, es[ei].name, (unsigned long long)a))
                    continue;
                C = &cf.c;
                E = &es[ei];
                for (uint64_t b = 0; b < (1ull << n); b++)
                {
                    const int va = (int)((a + b) & 7), vb = (int)((a ^ (b >> 1)) & 7);
                    if (n > 9 && b % 8 != a % 8 && b != rev(a, n))
                        continue;
                    pairOps(a, b, va, vb);
                    if (vh::g.case_failed)
                        break;
                }
            }
        }
    }
    for (size_t ei = 0; ei < es.size(); ei++)
    {
        static const Complex q3 = quads(3, 3), q4 = quads(4, 3), t2 = tris2(2, 2), f2 = tris(2, 1);
        const bool ortho = es[ei].a * es[ei].b == 0 && es[ei].c * es[ei].d == 0;
        for (uint64_t a = 0; a < 512; a++)
            for (int va = 0; va < 8; va += T ? 1 : 3)
            {
                if (vh::begin("lines quad3x3 %s a=%llx variant=%d", es[ei].name, (unsigned long long)a, va))
                {
                    C = &q3;
                    E = &es[ei];
                    clipLines(3, 3, a, u, va);
                }
                if (ortho && vh::begin("offset quad3x3 %s a=%llx variant=%d", es[ei].name, (unsigned long long)a, va))
                {
                    C = &q3;
                    E = &es[ei];
                    orthoOffset(3, 3, a, u, va);
                }
            }
        if (ortho)
            for (uint64_t a = 0; a < 4096; a += T ? 1 : 1 + ei)
                if (vh::begin("offset quad4x3 %s a=%llx", es[ei].name, (unsigned long long)a))
                {
                    C = &q4;
                    E = &es[ei];
                    orthoOffset(4, 3, a, u, (int)(a % 8));
                }
        for (const Complex* c : { &t2, &f2 })
            for (uint64_t a = 1; a < 256; a++)
                if (vh::begin("round %s %s a=%llx", c == &t2 ? "tri2x2" : "fan2x1", es[ei].name, (unsigned long long)a))
                {
                    C = c;
                    E = &es[ei];
                    std::vector<P> s;
                    for (int y = -8; y <= 16; y++)
                        for (int x = -8; x <= 16; x++)
                            s.push_back({ (E->a * (6 * x + 1) + E->b * (6 * y + 1)) / 24 + E->tx, (E->c * (6 * x + 1) + E->d * (6 * y + 1)) / 24 + E->ty });
                    roundOffset(a, u, (int)(a % 8), s);
                }
    }
}
} // namespace
int main(int argc, char** argv)
{
    return vh::main_(argc, argv, explore);
}
