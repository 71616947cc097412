// C17: splitting outline sets into parts, nesting depth, outer outlines, small-area and outline removal, on every small
// raster image, against connected components computed on the raster.
#include "shapes.h"
#include "geometry/LinesSet.h"
#include "geometry/OpenLinesSet.h"
#include "geometry/PartsView.h"
#include "geometry/SingleShape.h"
#include "layerPart.h"
#include "settings/Settings.h"
#include "slicer.h"
#include "sliceDataStorage.h"
#include "utils/AABB.h"

using namespace cura;
using namespace vs;

namespace
{
int W, H;
const Embed* E;
Complex C;
using M = uint64_t;
// connected components: solid cells 4-connected (true regions), empty cells 4-connected, the outside included as -1
struct Labels
{
    std::vector<int> solid, hole; // per cell, label or -1
    int n_solid = 0, n_hole = 0; // holes: not connected to the outside
    std::vector<M> solid_mask, hole_mask;
    std::vector<std::vector<int>> holes_of; // solid component -> holes directly inside it
    std::vector<int> parent_hole; // solid component -> hole around it or -1
    std::vector<int> parent_solid; // hole -> solid component around it
};
Labels label(M m)
{
    Labels L;
    L.solid.assign(W * H, -1);
    L.hole.assign(W * H, -1);
    auto flood = [&](int s, bool val, std::vector<int>& lab, int id, bool& outside)
    {
        M mask = 0;
        std::vector<int> st{ s };
        lab[s] = id;
        while (! st.empty())
        {
            const int c = st.back();
            st.pop_back();
            mask |= 1ull << c;
            const int x = c % W, y = c / W;
            const int nx[4] = { x + 1, x - 1, x, x }, ny[4] = { y, y, y + 1, y - 1 };
            for (int k = 0; k < 4; k++)
            {
                if (nx[k] < 0 || ny[k] < 0 || nx[k] >= W || ny[k] >= H)
                {
                    outside = true;
                    continue;
                }
                const int n = ny[k] * W + nx[k];
                if (((m >> n & 1) != 0) == val && lab[n] < 0)
                {
                    lab[n] = id;
                    st.push_back(n);
                }
            }
        }
        return mask;
    };
    for (int c = 0; c < W * H; c++)
        if (m >> c & 1)
        {
            if (L.solid[c] < 0)
            {
                bool o = false;
                L.solid_mask.push_back(flood(c, true, L.solid, L.n_solid++, o));
            }
        }
        else if (L.hole[c] < 0)
        {
            bool o = false;
            const M mk = flood(c, false, L.hole, 1000 + c, o);
            for (int k = 0; k < W * H; k++)
                if (L.hole[k] == 1000 + c)
                    L.hole[k] = o ? 999 : L.n_hole;
            if (! o)
            {
                L.hole_mask.push_back(mk);
                L.n_hole++;
            }
        }
    L.holes_of.resize(L.n_solid);
    L.parent_hole.assign(L.n_solid, -1);
    L.parent_solid.assign(L.n_hole, -1);
    // the first cell (lowest row, leftmost) of a hole has the surrounding solid to its left; likewise for solids
    for (int h = 0; h < L.n_hole; h++)
    {
        const int c = __builtin_ctzll(L.hole_mask[h]);
        L.parent_solid[h] = L.solid[c - 1];
        L.holes_of[L.solid[c - 1]].push_back(h);
    }
    for (int s = 0; s < L.n_solid; s++)
    {
        const int c = __builtin_ctzll(L.solid_mask[s]);
        if (c % W != 0 && L.hole[c - 1] >= 0 && L.hole[c - 1] < 999)
            L.parent_hole[s] = L.hole[c - 1];
    }
    return L;
}
// everything enclosed by the outer outline of solid s / by hole h
M filled(const Labels& L, int s);
M filledHole(const Labels& L, int h)
{
    M m = L.hole_mask[h];
    for (int s = 0; s < L.n_solid; s++)
        if (L.parent_hole[s] == h)
            m |= filled(L, s);
    return m;
}
M filled(const Labels& L, int s)
{
    M m = L.solid_mask[s];
    for (int h : L.holes_of[s])
        m |= filledHole(L, h);
    return m;
}
int depth(const Labels& L, int s)
{
    return L.parent_hole[s] < 0 ? 0 : depth(L, L.parent_solid[L.parent_hole[s]]) + 2;
}
Path canon(Path p)
{
    // without collinear vertices, starting at the smallest
    Path q;
    for (size_t i = 0; i < p.size(); i++)
        if (cross(p[(i + p.size() - 1) % p.size()], p[i], p[(i + 1) % p.size()]) != 0)
            q.push_back(p[i]);
    if (! q.empty())
        std::rotate(q.begin(), std::min_element(q.begin(), q.end()), q.end());
    return q;
}
std::multiset<std::vector<std::pair<i64, i64>>> canon(const Paths& ps)
{
    std::multiset<std::vector<std::pair<i64, i64>>> r;
    for (auto& p : ps)
    {
        std::vector<std::pair<i64, i64>> v;
        for (P x : canon(p))
            v.push_back({ x.x, x.y });
        r.insert(v);
    }
    return r;
}
M coverW(const Paths& ps)
{
    return cover(C, ps, *E);
}
std::string w;
#define F(...) vh::fail(__VA_ARGS__)
std::string hex(M m)
{
    char b[32];
    snprintf(b, sizeof b, "%llx", (unsigned long long)m);
    return b;
}
void checkParts(const char* op, const std::vector<Paths>& parts, M m, const Labels& L, bool unamb)
{
    vh::trans();
    std::set<M> seen;
    M all = 0;
    for (const Paths& p : parts)
    {
        if (p.empty() || p[0].empty())
        {
            F("%s: an empty part; %s", op, w.c_str());
            continue;
        }
        const M c = coverW(p), outer = coverW({ p[0] });
        if (area2(p[0]) <= 0)
            F("%s: first outline of a part is not an outer outline: %s", op, str(p).c_str());
        for (size_t k = 1; k < p.size(); k++)
        {
            if (area2(p[k]) >= 0)
                F("%s: outline %zu of a part is not a hole: %s", op, k, str(p).c_str());
            if (coverW({ p[k] }) & ~outer)
                F("%s: hole outside its part: %s", op, str(p).c_str());
        }
        if (all & c)
            F("%s: parts overlap; %s", op, w.c_str());
        all |= c;
        if (unamb && ! seen.insert(c).second)
            F("%s: a part occurs twice; %s", op, w.c_str());
        const i128 ar = area2(p);
        if (ar != maskArea2(C, c, *E))
            F("%s: twice the area of a part is %s instead of %s: %s", op, s128(ar).c_str(), s128(maskArea2(C, c, *E)).c_str(), str(p).c_str());
        if (unamb)
        {
            const int s = c ? L.solid[__builtin_ctzll(c)] : -1;
            if (s < 0 || L.solid_mask[s] != c)
                F("%s: part covers %s, not a connected region; %s", op, hex(c).c_str(), w.c_str());
            else if (p.size() != 1 + L.holes_of[s].size())
                F("%s: part %s has %zu outlines instead of %zu; %s", op, hex(c).c_str(), p.size(), 1 + L.holes_of[s].size(), w.c_str());
            else if (outer != filled(L, s))
                F("%s: outer outline of part %s encloses %s; %s", op, hex(c).c_str(), hex(outer).c_str(), w.c_str());
        }
        else
        {
            // never two regions that do not touch, never part of a region
            for (int s = 0; s < L.n_solid; s++)
                if ((L.solid_mask[s] & c) && (L.solid_mask[s] & ~c))
                    F("%s: part %s splits a connected region; %s", op, hex(c).c_str(), w.c_str());
        }
    }
    if (all != m)
        F("%s: parts cover %s instead of %s; %s", op, hex(all).c_str(), hex(m).c_str(), w.c_str());
    if (unamb && (int)parts.size() != L.n_solid)
        F("%s: %zu parts instead of %d; %s", op, parts.size(), L.n_solid, w.c_str());
}
i64 U;
void one(M m, int variant, bool deep)
{
    const Paths ps = trace(C, m, *E, variant);
    const Shape S = toShape(ps);
    w = "outlines " + str(ps);
    const bool unamb = unambiguous(W, H, m);
    const Labels L = label(m);
    vh::state(hashPaths(ps));
    vh::outcome(vh::mix(L.n_solid, L.n_hole));
    // --- parts
    for (bool un : { false, true })
    {
        std::vector<Paths> parts;
        for (const SingleShape& p : S.splitIntoParts(un))
            parts.push_back(fromShape(p));
        checkParts(un ? "splitIntoParts(union)" : "splitIntoParts", parts, m, L, unamb);
        if (vh::g.case_failed)
            return;
        Shape V = S;
        const PartsView view = V.splitIntoPartsView(un);
        std::vector<Paths> vp;
        std::set<size_t> used;
        for (size_t k = 0; k < view.size(); k++)
        {
            vp.push_back(fromShape(view.assemblePart(k)));
            for (size_t j = 0; j < view[k].size(); j++)
            {
                const size_t i = view[k][j];
                if (! used.insert(i).second)
                    F("splitIntoPartsView: outline %zu in two parts; %s", i, w.c_str());
                size_t b = 12345;
                if (view.getPartContaining(i, &b) != k || b != view[k][0])
                    F("getPartContaining(%zu) is wrong; %s", i, w.c_str());
                if (fromShape(view.assemblePartContaining(i)) != vp.back())
                    F("assemblePartContaining(%zu) is wrong; %s", i, w.c_str());
            }
        }
        if (used.size() != V.size())
            F("splitIntoPartsView leaves an outline in no part; %s", w.c_str());
        if (view.getPartContaining(V.size()) != NO_INDEX)
            F("getPartContaining of a missing outline finds something; %s", w.c_str());
        checkParts("splitIntoPartsView", vp, m, L, unamb);
    }
    // --- nesting
    if (unamb)
    {
        std::map<int, std::set<M>> want;
        for (int s = 0; s < L.n_solid; s++)
        {
            want[depth(L, s)].insert(filled(L, s));
            for (int h : L.holes_of[s])
                want[depth(L, s) + 1].insert(filledHole(L, h));
        }
        const std::vector<Shape> nest = S.sortByNesting();
        vh::trans();
        std::map<int, std::set<M>> got;
        size_t n = 0;
        for (size_t d = 0; d < nest.size(); d++)
            for (const auto& p : nest[d])
            {
                got[(int)d].insert(coverW({ fromLine(p) }));
                n++;
            }
        if (got != want || n != (size_t)(L.n_solid + L.n_hole))
            F("sortByNesting puts outlines at wrong depths; %s", w.c_str());
        const Paths out = fromShape(S.getOutsidePolygons());
        std::set<M> o;
        for (auto& p : out)
            o.insert(coverW({ p }));
        if (o != want[0] || out.size() != want[0].size())
            F("getOutsidePolygons gives %s; %s", str(out).c_str(), w.c_str());
    }
    else if (S.size() > 1)
    {
        M out = 0, fill = 0;
        for (auto& p : fromShape(S.getOutsidePolygons()))
            out |= coverW({ p });
        for (int s = 0; s < L.n_solid; s++)
            if (depth(L, s) == 0)
                fill |= filled(L, s);
        if ((out & fill) != (fill & out) || (m & ~out))
            F("getOutsidePolygons covers %s; %s", hex(out).c_str(), w.c_str());
    }
    // --- removing small areas
    auto cell_mm2 = (double)maskArea2(C, 1, *E) / 2e6;
    for (double thr : { 0.5, 1.5, 2.5, 4.5, 8.5 })
        for (bool rh : { false, true })
        {
            Shape R = S;
            R.removeSmallAreas(thr * cell_mm2, rh);
            vh::trans();
            Paths want;
            std::vector<char> small(ps.size());
            for (size_t k = 0; k < ps.size(); k++)
            {
                const i128 a = area2(ps[k]);
                small[k] = (double)(a < 0 ? -a : a) / 2e6 < thr * cell_mm2;
            }
            bool skip = false;
            for (size_t k = 0; k < ps.size(); k++)
            {
                bool drop = small[k];
                if (! rh && area2(ps[k]) < 0)
                {
                    drop = false;
                    const M hm = coverW({ ps[k] });
                    for (size_t j = 0; j < ps.size(); j++)
                        if (area2(ps[j]) > 0 && small[j] && ! (hm & ~coverW({ ps[j] })))
                        {
                            drop = true;
                            skip |= ! unamb; // the first vertex of the hole may touch the outline
                        }
                }
                if (! drop)
                    want.push_back(ps[k]);
            }
            if (! skip && canon(fromShape(R)) != canon(want))
                F("removeSmallAreas(%.1f cells, holes %d) leaves %s; %s", thr, rh, str(fromShape(R)).c_str(), w.c_str());
        }
    if (! deep)
        return;
    // --- removing given outlines, wherever they start
    for (size_t sub = 0; unamb && sub < (1u << std::min<size_t>(ps.size(), 3)); sub++)
    {
        Paths rem, keep;
        for (size_t k = 0; k < ps.size(); k++)
            if (k < 3 && (sub >> k & 1))
            {
                Path q = ps[k];
                std::rotate(q.begin(), q.begin() + q.size() * (k + 1) / 4, q.end());
                for (P& x : q)
                {
                    x.x += 3;
                    x.y -= 2;
                }
                rem.push_back(q);
            }
            else
                keep.push_back(ps[k]);
        const Paths got = fromShape(S.removePolygon(toShape(rem), 5));
        if (got != keep)
            F("removePolygon of %zu outlines leaves %s; %s", rem.size(), str(got).c_str(), w.c_str());
        if (! rem.empty() && fromShape(S.removePolygon(toShape(rem), 1)) != ps)
            F("removePolygon removes outlines that differ by more than the allowed distance; %s", w.c_str());
    }
    // --- bookkeeping of the outlines
    {
        double len = 0;
        size_t n = 0;
        OpenLinesSet segs = S.splitIntoSegments();
        std::multiset<std::array<i64, 4>> a, b;
        for (auto& p : ps)
        {
            n += p.size();
            for (size_t i = 0; i < p.size(); i++)
            {
                const P x = p[i], y = p[(i + 1) % p.size()];
                len += std::hypot((double)(x.x - y.x), (double)(x.y - y.y));
                a.insert({ x.x, x.y, y.x, y.y });
            }
        }
        for (const auto& s : segs)
            b.insert({ s[0].X, s[0].Y, s[1].X, s[1].Y });
        if (a != b)
            F("splitIntoSegments gives other segments; %s", w.c_str());
        if (S.pointCount() != n || std::abs((double)S.length() - len) > (double)n)
            F("point count %zu or length %lld is wrong; %s", S.pointCount(), (i64)S.length(), w.c_str());
        Shape T = S;
        T.translate(Point2LL(17, -400));
        for (auto& p : T)
            for (auto& q : p)
                q -= Point2LL(17, -400);
        if (fromShape(T) != ps)
            F("translate is wrong; %s", w.c_str());
        for (size_t k = 0; k < ps.size(); k++)
        {
            Shape R = S;
            R.removeAt(k);
            Paths left = ps;
            left.erase(left.begin() + k);
            if (canon(fromShape(R)) != canon(left))
                F("removeAt(%zu) is wrong; %s", k, w.c_str());
            // center of mass
            const M c = coverW({ ps[k] });
            double x = 0, y = 0;
            const int nn = __builtin_popcountll(c);
            for (int i = 0; i < W * H; i++)
                if (c >> i & 1)
                {
                    x += (double)center(C, i, *E).x / nn;
                    y += (double)center(C, i, *E).y / nn;
                }
            const Point2LL cm = S[k].centerOfMass();
            const double far = std::abs((double)E->tx) + std::abs((double)E->ty) > 1e6 ? 60 : 2;
            if (std::abs(cm.X - x) > far || std::abs(cm.Y - y) > far)
                F("center of mass (%lld,%lld) instead of (%.1f,%.1f); outline %s", (i64)cm.X, (i64)cm.Y, x, y, str({ ps[k] }).c_str());
            for (size_t st = 0; st < ps[k].size(); st++)
                for (bool ex : { false, true })
                {
                    Polygon g(toPolygon(ps[k]));
                    if (ex)
                    {
                        g = Polygon(ClipperLib::Path(g.getPoints()), true);
                        g.push_back(g.front());
                    }
                    g.shiftVerticesToStartPoint(st);
                    Path want = ps[k];
                    std::rotate(want.begin(), want.begin() + st, want.end());
                    if (ex)
                        want.push_back(want[0]);
                    if (fromLine(g) != want)
                        F("starting outline at vertex %zu (explicitly closed %d) gives %s; %s", st, ex, str({ fromLine(g) }).c_str(), w.c_str());
                }
        }
        // collinear vertices
        const Paths col = trace(C, m, *E, variant | 2);
        Shape R = toShape(col);
        R.removeColinearEdges();
        if (canon(fromShape(R)) != canon(col))
            F("removeColinearEdges changes the outlines %s to %s", str(col).c_str(), str(fromShape(R)).c_str());
        for (auto& p : fromShape(R))
            if (canon(p).size() != p.size())
                F("removeColinearEdges leaves collinear vertices: %s", str({ p }).c_str());
        // spikes: a way out and back at every vertex
        for (size_t k = 0; k < ps.size(); k++)
            for (size_t at = 0; at < ps[k].size(); at++)
            {
                Paths sp = ps;
                const P v = ps[k][at], n = ps[k][(at + 1) % ps[k].size()];
                const P out{ v.x - (n.x - v.x) , v.y - (n.y - v.y) };
                // only where the way out does not coincide with the previous edge
                const P pr = ps[k][(at + ps[k].size() - 1) % ps[k].size()];
                if (cross(pr, v, n) == 0)
                    continue;
                sp[k].insert(sp[k].begin() + at + 1, { out });
                Shape D = toShape(sp);
                D.removeDegenerateVerts();
                const Paths got = fromShape(D);
                if (E->b == 0 && E->c == 0 && canon(got) != canon(ps))
                    F("removeDegenerateVerts turns %s into %s", str(sp).c_str(), str(got).c_str());
                std::rotate(sp[k].begin(), sp[k].begin() + at + 1, sp[k].end());
                Shape G = toShape(sp);
                G.removeDegenerateVerts();
                if (E->b == 0 && E->c == 0 && canon(fromShape(G)) != canon(ps))
                    F("removeDegenerateVerts turns %s into %s", str(sp).c_str(), str(fromShape(G)).c_str());
            }
        Shape D = S;
        D.removeDegenerateVerts();
        if (fromShape(D) != ps)
            F("removeDegenerateVerts changes outlines without degenerate vertices: %s", str(ps).c_str());
    }
    // --- convex hull of everything
    if (m)
    {
        Shape R = S;
        R.makeConvex();
        std::vector<P> pts;
        for (auto& p : ps)
            pts.insert(pts.end(), p.begin(), p.end());
        std::sort(pts.begin(), pts.end());
        pts.erase(std::unique(pts.begin(), pts.end()), pts.end());
        Path hull;
        for (int pass = 0; pass < 2; pass++)
        {
            const size_t base = hull.size();
            for (auto& q : pts)
            {
                while (hull.size() >= base + 2 && cross(hull[hull.size() - 2], hull.back(), q) <= 0)
                    hull.pop_back();
                hull.push_back(q);
            }
            hull.pop_back();
            std::reverse(pts.begin(), pts.end());
        }
        if (canon(fromShape(R)) != canon(Paths{ hull }))
            F("makeConvex gives %s instead of %s", str(fromShape(R)).c_str(), str({ hull }).c_str());
    }
    // --- touching vertices
    if (! unamb)
    {
        Shape R = S;
        R.ensureManifold();
        const Paths r = fromShape(R);
        std::set<P> v;
        for (auto& p : r)
            for (auto& q : p)
                if (! v.insert(q).second)
                    F("ensureManifold leaves vertex (%lld,%lld) twice: %s", q.x, q.y, str(r).c_str());
        if (coverW(r) != m)
            F("ensureManifold changes the area: %s", str(r).c_str());
    }
    // --- tube
    {
        const i64 d = U / 4;
        const Paths t = fromShape(S.createTubeShape(d, d / 2));
        for (int y = -3; y <= 8 * H + 3; y += 1)
            for (int x = -3; x <= 8 * W + 3; x += 1)
            {
                const P q{ (E->a * (12 * x + 1) + E->b * (12 * y + 1)) / 96 + E->tx, (E->c * (12 * x + 1) + E->d * (12 * y + 1)) / 96 + E->ty };
                const double dist = distBorder(q, ps);
                const bool in = evenOdd(q, ps);
                const double lim = in ? d : d / 2;
                if (dist < lim - 3 && ! evenOdd(q, t))
                    F("createTubeShape misses (%lld,%lld) at distance %.1f; %s", q.x, q.y, dist, w.c_str());
                if (dist > lim * 1.5 + 3 && evenOdd(q, t))
                    F("createTubeShape contains (%lld,%lld) at distance %.1f; %s", q.x, q.y, dist, w.c_str());
            }
        // intersections of a line through cell thirds
        for (int y = 0; y < H; y++)
        {
            const P a{ (E->a * -12 + E->b * (12 * y + 4)) / 12 + E->tx, (E->c * -12 + E->d * (12 * y + 4)) / 12 + E->ty };
            const P b{ (E->a * (12 * W + 12) + E->b * (12 * y + 4)) / 12 + E->tx, (E->c * (12 * W + 12) + E->d * (12 * y + 4)) / 12 + E->ty };
            std::vector<float> ts = S.intersectionsWithSegment(Point2LL(a.x, a.y), Point2LL(b.x, b.y));
            std::sort(ts.begin(), ts.end());
            std::vector<float> want;
            for (int x = 0; x <= W; x++)
            {
                const bool l = x > 0 && (m >> (y * W + x - 1) & 1), r = x < W && (m >> (y * W + x) & 1);
                if (l != r)
                    want.push_back((float)(x + 1) / (W + 2));
            }
            bool ok = ts.size() == want.size();
            for (size_t i = 0; ok && i < ts.size(); i++)
                ok = std::abs(ts[i] - want[i]) < 1e-3;
            if (! ok)
                F("intersectionsWithSegment in row %d finds %zu instead of %zu crossings (or other places); %s", y, ts.size(), want.size(), w.c_str());
        }
    }
}
// two overlapping outline sets sliced into one layer
// (the second one half a cell further along both axes, so that no edges coincide)
void layer(M a3, M b3, int va)
{
    auto up = [](M m, int shift)
    {
        M r = 0;
        for (int y = 0; y < 6; y++)
            for (int x = 0; x < 6; x++)
                if (m >> (y / 2 * 3 + x / 2) & 1)
                    r |= 1ull << ((y + shift) * 7 + x + shift);
        return r;
    };
    const M a = up(a3, 0), b = up(b3, 1);
    Paths ps = trace(C, a, *E, va);
    const Paths pb = trace(C, b, *E, va);
    ps.insert(ps.end(), pb.begin(), pb.end());
    w = "outlines " + str(ps);
    M fa = 0, fb = 0;
    const Labels la = label(a), lb = label(b);
    for (int s = 0; s < la.n_solid; s++)
        fa |= filled(la, s);
    for (int s = 0; s < lb.n_solid; s++)
        fb |= filled(lb, s);
    for (int mode = 0; mode < 4; mode++)
    {
        if ((mode & 2) && ! (unambiguous(W, H, a) && unambiguous(W, H, b)))
            continue; // whether an outline is a hole depends on how touching corners were joined
        Settings set;
        set.add("wall_line_width_0", "0.4");
        set.add("meshfix_union_all", mode & 1 ? "true" : "false");
        set.add("meshfix_union_all_remove_holes", mode & 2 ? "true" : "false");
        set.add("magic_mesh_surface_mode", "normal");
        set.add("meshfix_maximum_resolution", "0.5");
        set.add("meshfix_maximum_deviation", "0.025");
        set.add("meshfix_maximum_extrusion_area_deviation", "2000");
        SlicerLayer sl;
        sl.polygons_ = toShape(ps);
        SliceLayer out;
        createLayerWithParts(set, out, &sl);
        std::vector<Paths> parts;
        for (auto& p : out.parts)
        {
            parts.push_back(fromShape(p.outline));
            const AABB box(p.outline);
            if (box.min_ != p.boundaryBox.min_ || box.max_ != p.boundaryBox.max_)
                F("bounding box of a part is wrong; %s", w.c_str());
        }
        const M want = mode & 2 ? fa | fb : mode & 1 ? a | b : a ^ b;
        checkParts(mode & 2 ? "layer parts (union, remove holes)" : mode & 1 ? "layer parts (union)" : "layer parts (even-odd)", parts, want, label(want), unambiguous(W, H, want) && unambiguous(W, H, a) && unambiguous(W, H, b));
    }
}
void explore()
{
    const i64 u = 1200;
    U = u;
    auto es = embeds(u);
    auto run = [&](int w_, int h_, M m, size_t e, int v, bool deep)
    {
        if (! vh::begin("image %dx%d mask %llx embedding %s variant %d", w_, h_, (unsigned long long)m, es[e].name, v))
            return;
        W = w_;
        H = h_;
        C = quads(W, H);
        E = &es[e];
        one(m, v, deep);
    };
    for (size_t e = 0; e < es.size(); e++)
        for (M m = 0; m < 512; m++)
            for (int v : { 0, 1, 4 })
                run(3, 3, m, e, v, true);
    // every 4x4 image
    for (size_t e : { 0, 4, 3 })
        for (M m = 0; m < 65536; m++)
            if (vh::thorough() || e == 0)
                run(4, 4, m, e, vh::thorough() ? (int)(m * 2654435761u >> 13 & 5) : 0, vh::thorough());
    // every 5x5 image with point symmetry
    for (M h = 0; h < 8192; h++)
    {
        M m = 0;
        for (int i = 0; i < 13; i++)
            if (h >> i & 1)
                m |= 1ull << i | 1ull << (24 - i);
        run(5, 5, m, vh::thorough() ? h % es.size() : h % 2 * 4, 0, true);
    }
    // every 7x7 image symmetric about both axes (islands in holes in islands)
    for (M h = 0; h < 65536; h++)
    {
        if (! vh::thorough() && h % 4 != 3 && h % 16 != 4)
            continue;
        M m = 0;
        for (int y = 0; y < 7; y++)
            for (int x = 0; x < 7; x++)
                if (h >> (std::min(y, 6 - y) * 4 + std::min(x, 6 - x)) & 1)
                    m |= 1ull << (y * 7 + x);
        run(7, 7, m, h % 3 ? 0 : 4, 0, vh::thorough());
    }
    // overlapping outline sets in one layer
    for (M a = 1; a < 512; a++)
        for (int k = 0; k < (vh::thorough() ? 16 : 2); k++)
        {
            if (! vh::begin("layer of image %llx with others %d", (unsigned long long)a, k))
                continue;
            W = H = 7;
            C = quads(7, 7);
            E = &es[k % 2 ? 4 : 0];
            for (M b = k; b < 512; b += 32)
                layer(a, b, 0);
        }
}
} // namespace
int main(int argc, char** argv)
{
    return vh::main_(argc, argv, explore, 4);
}
