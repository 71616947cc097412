// Shapes drawn on a small planar cell complex, with exact reference geometry that is independent of the engine's.
#pragma once
#include "geometry/Polygon.h"
#include "geometry/Shape.h"
#include "geometry/SingleShape.h"
#include "vh.h"
#include <algorithm>
#include <array>
#include <cmath>
#include <map>

namespace vs
{
using i64 = long long;
using i128 = __int128;
struct P
{
    i64 x, y;
    bool operator==(const P& o) const
    {
        return x == o.x && y == o.y;
    }
    bool operator<(const P& o) const
    {
        return x != o.x ? x < o.x : y < o.y;
    }
};
using Path = std::vector<P>;
using Paths = std::vector<Path>;

struct Embed // (x, y) -> (a x + b y + tx, c x + d y + ty)
{
    i64 a, b, c, d, tx, ty;
    const char* name;
    P operator()(P p) const
    {
        return { a * p.x + b * p.y + tx, c * p.x + d * p.y + ty };
    }
    i64 det() const
    {
        return a * d - b * c;
    }
};
// unit: length of a cell, a multiple of 12
inline std::vector<Embed> embeds(i64 u)
{
    return {
        { u, 0, 0, u, 0, 0, "id" },
        { 0, -u, u, 0, 7 * u + 3, -11 * u - 5, "rot90" },
        { -u, 0, 0, u, -100003, 50021, "mirror" },
        { u, 0, 0, u, 300000 * 12 - 5 * u, -250000 * 12 - u, "far" },
        { 2 * u, u, -u, 3 * u, -4 * u, -5 * u, "skew" },
        { 5 * u, -u, 4 * u, 3 * u, 17, 23, "skew2" },
        { -u, 0, 0, -u, 2 * u, 2 * u, "rot180" },
    };
}
struct Complex
{
    std::vector<P> v; // in cell coordinates, times `den`
    std::vector<std::vector<int>> cells; // counter-clockwise
    i64 den = 1;
};
inline Complex quads(int w, int h)
{
    Complex c;
    for (int y = 0; y <= h; y++)
        for (int x = 0; x <= w; x++)
            c.v.push_back({ x, y });
    auto id = [&](int x, int y) { return y * (w + 1) + x; };
    for (int y = 0; y < h; y++)
        for (int x = 0; x < w; x++)
            c.cells.push_back({ id(x, y), id(x + 1, y), id(x + 1, y + 1), id(x, y + 1) });
    return c;
}
// each square in four triangles
inline Complex tris(int w, int h)
{
    Complex c;
    c.den = 2;
    for (int y = 0; y <= h; y++)
        for (int x = 0; x <= w; x++)
            c.v.push_back({ 2 * x, 2 * y });
    auto id = [&](int x, int y) { return y * (w + 1) + x; };
    for (int y = 0; y < h; y++)
        for (int x = 0; x < w; x++)
        {
            const int m = (int)c.v.size();
            c.v.push_back({ 2 * x + 1, 2 * y + 1 });
            c.cells.push_back({ id(x, y), id(x + 1, y), m });
            c.cells.push_back({ id(x + 1, y), id(x + 1, y + 1), m });
            c.cells.push_back({ id(x + 1, y + 1), id(x, y + 1), m });
            c.cells.push_back({ id(x, y + 1), id(x, y), m });
        }
    return c;
}
// each square in two triangles
inline Complex tris2(int w, int h)
{
    Complex c = quads(w, h);
    std::vector<std::vector<int>> t;
    for (size_t i = 0; i < c.cells.size(); i++)
    {
        auto& q = c.cells[i];
        if (i % 2)
        {
            t.push_back({ q[0], q[1], q[2] });
            t.push_back({ q[0], q[2], q[3] });
        }
        else
        {
            t.push_back({ q[0], q[1], q[3] });
            t.push_back({ q[1], q[2], q[3] });
        }
    }
    c.cells = t;
    return c;
}
inline i128 cross(P o, P a, P b)
{
    return (i128)(a.x - o.x) * (b.y - o.y) - (i128)(a.y - o.y) * (b.x - o.x);
}
inline i128 dotp(P o, P a, P b)
{
    return (i128)(a.x - o.x) * (b.x - o.x) + (i128)(a.y - o.y) * (b.y - o.y);
}
inline i128 area2(const Path& p)
{
    i128 s = 0;
    for (size_t i = 0; i < p.size(); i++)
    {
        const P &a = p[i], &b = p[(i + 1) % p.size()];
        s += (i128)a.x * b.y - (i128)a.y * b.x;
    }
    return s;
}
inline i128 area2(const Paths& ps)
{
    i128 s = 0;
    for (auto& p : ps)
        s += area2(p);
    return s;
}
inline bool onSegment(P q, P a, P b)
{
    return cross(a, b, q) == 0 && dotp(q, a, b) <= 0;
}
inline bool onBorder(P q, const Paths& ps)
{
    for (auto& p : ps)
        for (size_t i = 0; i < p.size(); i++)
            if (onSegment(q, p[i], p[(i + 1) % p.size()]))
                return true;
    return false;
}
inline int winding(P q, const Path& p)
{
    int w = 0;
    for (size_t i = 0; i < p.size(); i++)
    {
        const P &a = p[i], &b = p[(i + 1) % p.size()];
        if (a.y <= q.y)
        {
            if (b.y > q.y && cross(a, b, q) > 0)
                w++;
        }
        else if (b.y <= q.y && cross(a, b, q) < 0)
            w--;
    }
    return w;
}
inline bool evenOdd(P q, const Paths& ps)
{
    int w = 0;
    for (auto& p : ps)
        w += winding(q, p);
    return w & 1;
}
inline double dist(P q, P a, P b)
{
    const double l2 = (double)dotp(a, b, b), t = l2 == 0 ? 0 : std::clamp((double)dotp(a, b, q) / l2, 0.0, 1.0);
    const double dx = a.x + t * (b.x - a.x) - q.x, dy = a.y + t * (b.y - a.y) - q.y;
    return std::sqrt(dx * dx + dy * dy);
}
inline double distBorder(P q, const Paths& ps)
{
    double d = 1e300;
    for (auto& p : ps)
        for (size_t i = 0; i < p.size(); i++)
            d = std::min(d, dist(q, p[i], p[(i + 1) % p.size()]));
    return d;
}
// Outlines of the cells in mask; variant bit 0: join or separate at touching corners, bit 1: keep collinear vertices,
// bit 2: other start vertices and polygon order. Outer outlines counter-clockwise after embedding.
inline Paths trace(const Complex& c, uint64_t mask, const Embed& e, int variant = 0)
{
    std::vector<std::pair<int, int>> edges;
    for (size_t i = 0; i < c.cells.size(); i++)
        if (mask >> i & 1)
            for (size_t k = 0; k < c.cells[i].size(); k++)
                edges.emplace_back(c.cells[i][k], c.cells[i][(k + 1) % c.cells[i].size()]);
    std::vector<char> dead(edges.size(), 0);
    for (size_t i = 0; i < edges.size(); i++)
        for (size_t j = i + 1; j < edges.size() && ! dead[i]; j++)
            if (! dead[j] && edges[i].first == edges[j].second && edges[i].second == edges[j].first)
                dead[i] = dead[j] = 1;
    Paths out;
    for (size_t s = 0; s < edges.size(); s++)
    {
        if (dead[s])
            continue;
        std::vector<int> loop;
        size_t cur = s;
        while (true)
        {
            dead[cur] = 1;
            loop.push_back(edges[cur].first);
            const int at = edges[cur].second;
            if (at == edges[s].first)
            {
                // separate: close as soon as possible; join: continue if another edge leaves here
                bool more = false;
                if (variant & 1)
                    for (size_t j = 0; j < edges.size(); j++)
                        more |= ! dead[j] && edges[j].first == at;
                if (! more)
                    break;
            }
            // pick the next edge: leftmost (separates solids at touching corners) or rightmost turn (joins them)
            int best = -1;
            double best_ang = 0;
            const P a = c.v[edges[cur].first], b = c.v[at];
            for (size_t j = 0; j < edges.size(); j++)
            {
                if (dead[j] || edges[j].first != at)
                    continue;
                const P d = c.v[edges[j].second];
                const double ang = std::atan2((double)cross(a, b, d), (double)((b.x - a.x) * (d.x - b.x) + (b.y - a.y) * (d.y - b.y)));
                if (best < 0 || ((variant & 1) ? ang < best_ang : ang > best_ang))
                {
                    best = (int)j;
                    best_ang = ang;
                }
            }
            cur = best;
        }
        // split loops that pass a vertex twice when separating
        Path p;
        for (int v : loop)
            p.push_back(c.v[v]);
        if (! (variant & 2))
        {
            Path q;
            for (size_t i = 0; i < p.size(); i++)
                if (cross(p[(i + p.size() - 1) % p.size()], p[i], p[(i + 1) % p.size()]) != 0)
                    q.push_back(p[i]);
            p = q;
        }
        for (P& x : p)
        {
            x = e(x);
            x.x = (x.x - e.tx) / c.den + e.tx;
            x.y = (x.y - e.ty) / c.den + e.ty;
        }
        if (e.det() < 0)
            std::reverse(p.begin(), p.end());
        if (variant & 4)
            std::rotate(p.begin(), p.begin() + p.size() / 2, p.end());
        out.push_back(p);
    }
    if (variant & 4)
        std::reverse(out.begin(), out.end());
    return out;
}
// a point inside cell i (embedding unit must be a multiple of 12)
inline P center(const Complex& c, size_t i, const Embed& e)
{
    P s{ 0, 0 };
    for (int v : c.cells[i])
    {
        s.x += c.v[v].x;
        s.y += c.v[v].y;
    }
    const i64 n = (i64)c.cells[i].size() * c.den;
    return { (e.a * s.x + e.b * s.y) / n + e.tx, (e.c * s.x + e.d * s.y) / n + e.ty };
}
// twice the area of cell i
inline i128 cellArea2(const Complex& c, size_t i, const Embed& e)
{
    Path p;
    for (int v : c.cells[i])
        p.push_back(c.v[v]);
    const i64 d = e.det() < 0 ? -e.det() : e.det();
    return area2(p) * d / (c.den * c.den);
}
inline i128 maskArea2(const Complex& c, uint64_t mask, const Embed& e)
{
    i128 s = 0;
    for (size_t i = 0; i < c.cells.size(); i++)
        if (mask >> i & 1)
            s += cellArea2(c, i, e);
    return s;
}
inline cura::Polygon toPolygon(const Path& p)
{
    cura::Polygon r;
    for (auto& q : p)
        r.push_back(cura::Point2LL(q.x, q.y));
    return r;
}
inline cura::Shape toShape(const Paths& ps)
{
    cura::Shape s;
    for (auto& p : ps)
        s.push_back(toPolygon(p));
    return s;
}
template<class L>
inline Path fromLine(const L& l)
{
    Path p;
    for (const auto& q : l)
        p.push_back({ q.X, q.Y });
    return p;
}
template<class S>
inline Paths fromShape(const S& s)
{
    Paths r;
    for (const auto& l : s)
        r.push_back(fromLine(l));
    return r;
}
inline uint64_t hashPaths(const Paths& p)
{
    uint64_t h = p.size();
    for (auto& q : p)
    {
        h = vh::mix(h, q.size());
        for (auto& x : q)
            h = vh::mix(vh::mix(h, x.x), x.y);
    }
    return h;
}
inline std::string str(const Paths& ps)
{
    std::string s;
    for (auto& p : ps)
    {
        s += "[";
        for (auto& q : p)
            s += "(" + std::to_string(q.x) + "," + std::to_string(q.y) + ")";
        s += "]";
        if (s.size() > 900)
            break;
    }
    return s;
}
// mask of the cells whose reference point is covered
inline uint64_t cover(const Complex& c, const Paths& ps, const Embed& e)
{
    uint64_t m = 0;
    for (size_t i = 0; i < c.cells.size(); i++)
        if (evenOdd(center(c, i, e), ps))
            m |= 1ull << i;
    return m;
}
inline std::string s128(i128 v)
{
    return std::to_string((double)v);
}
// true when no two solid cells of a quad complex touch only at a corner (and no two holes do)
inline bool unambiguous(int w, int h, uint64_t m)
{
    auto at = [&](int x, int y) { return x >= 0 && y >= 0 && x < w && y < h && (m >> (y * w + x) & 1); };
    for (int y = 0; y <= h; y++)
        for (int x = 0; x <= w; x++)
        {
            const bool a = at(x - 1, y - 1), b = at(x, y - 1), c = at(x - 1, y), d = at(x, y);
            if ((a && d && ! b && ! c) || (b && c && ! a && ! d))
                return false;
        }
    return true;
}
} // namespace vs
