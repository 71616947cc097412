// C36: UnionFind on every operation sequence against the partition it stands for; minimum spanning trees of every point set
// of a lattice against Kruskal's algorithm.
#include "geometry/Point2LL.h"
#include "utils/MinimumSpanningTree.h"
#include "utils/UnionFind.h"
#include "vh.h"
#include <algorithm>
#include <numeric>

using namespace cura;
namespace
{
using UF = UnionFind<int>;
struct Sys
{
    UF uf;
    std::vector<size_t> handle;
    std::vector<int> cls; // reference: class number of every element
};
bool verify(Sys s, const std::string& trace) // by value: finding compresses paths
{
    const size_t n = s.handle.size();
    std::vector<size_t> f(n);
    for (size_t i = 0; i < n; i++)
    {
        f[i] = s.uf.find((int)i * 7);
        if (f[i] != s.uf.findByHandle(s.handle[i]) || f[i] == (size_t)-1)
        {
            vh::fail("%s: element %zu is found as %zu and by its handle as %zu", trace.c_str(), i, f[i], s.uf.findByHandle(s.handle[i]));
            return false;
        }
    }
    for (size_t i = 0; i < n; i++)
        for (size_t j = 0; j < n; j++)
            if ((f[i] == f[j]) != (s.cls[i] == s.cls[j]))
            {
                vh::fail("%s: elements %zu and %zu are %s", trace.c_str(), i, j, f[i] == f[j] ? "united" : "separate");
                return false;
            }
    if (s.uf.find(999) != (size_t)-1 || s.uf.findByHandle(n) != (size_t)-1)
    {
        vh::fail("%s: finds an element that was never added", trace.c_str());
        return false;
    }
    std::vector<int> it(s.uf.begin(), s.uf.end());
    std::sort(it.begin(), it.end());
    bool ok = it.size() == n;
    for (size_t i = 0; ok && i < n; i++)
        ok = it[i] == (int)i * 7;
    if (! ok)
    {
        vh::fail("%s: iteration does not list every element", trace.c_str());
        return false;
    }
    vh::trans();
    uint64_t h = n;
    for (size_t i = 0; i < n; i++)
        h = vh::mix(h, vh::mix(s.cls[i], f[i]));
    vh::state(h);
    return true;
}
void uni(Sys& s, int i, int j, bool root)
{
    const size_t a = root ? s.uf.find(i * 7) : s.handle[i], b = root ? s.uf.find(j * 7) : s.handle[j];
    const size_t r = s.uf.unite(a, b);
    const int from = s.cls[j], to = s.cls[i];
    for (int& c : s.cls)
        if (c == from)
            c = to;
    if (s.uf.findByHandle(r) != s.uf.find(i * 7) || s.uf.find(i * 7) != s.uf.find(j * 7))
        vh::fail("unite returns a handle outside the united set");
}
void dfs(const Sys& s, int depth, std::string trace, int maxn)
{
    if (vh::g.case_failed || ! verify(s, trace) || depth == 0)
        return;
    const int n = (int)s.handle.size();
    if (n < maxn)
    {
        Sys t = s;
        t.handle.push_back(t.uf.add(n * 7));
        t.cls.push_back(n);
        dfs(t, depth - 1, trace + " +" + std::to_string(n), maxn);
    }
    for (int i = 0; i < n; i++)
    {
        Sys t = s;
        t.uf.find(i * 7);
        for (int j = 0; j < n; j++)
            for (int root = 0; root < 2; root++)
            {
                Sys t = s;
                uni(t, i, j, root);
                dfs(t, depth - 1, trace + (root ? " U" : " u") + std::to_string(i) + std::to_string(j), maxn);
            }
    }
}
int64_t d2(Point2LL a, Point2LL b)
{
    return (a.X - b.X) * (a.X - b.X) + (a.Y - b.Y) * (a.Y - b.Y);
}
void tree(std::vector<Point2LL> pts)
{
    const MinimumSpanningTree t(pts);
    const int n = (int)pts.size();
    auto index = [&](Point2LL p) { return (int)(std::find(pts.begin(), pts.end(), p) - pts.begin()); };
    vh::trans();
    std::vector<std::pair<int64_t, std::pair<int, int>>> e;
    std::vector<int> p(n);
    auto root = [&](auto&& self, int x) -> int { return p[x] == x ? x : p[x] = self(self, p[x]); };
    std::iota(p.begin(), p.end(), 0);
    for (int i = 0; i < n; i++)
        for (int j = i + 1; j < n; j++)
            e.push_back({ d2(pts[i], pts[j]), { i, j } });
    std::sort(e.begin(), e.end());
    std::vector<int64_t> want, got;
    for (auto& [d, ij] : e)
    {
        const int a = root(root, ij.first), b = root(root, ij.second);
        if (a != b)
            p[a] = b, want.push_back(d);
    }
    std::iota(p.begin(), p.end(), 0);
    auto v = t.vertices();
    std::sort(v.begin(), v.end(), [&](auto a, auto b) { return index(a) < index(b); });
    if ((int)v.size() != n)
        return vh::fail("%zu vertices in the tree of %d points", v.size(), n);
    for (int i = 0; i < n; i++)
        if (! (v[i] == pts[i]))
            return vh::fail("vertex missing");
    std::vector<int> deg(n);
    uint64_t h = 0;
    for (int i = 0; i < n; i++)
    {
        std::set<int> seen;
        for (Point2LL q : t.adjacentNodes(pts[i]))
        {
            const int j = index(q);
            if (j == n || j == i || ! seen.insert(j).second)
                return vh::fail("strange neighbour (%lld,%lld)", q.X, q.Y);
            auto back = t.adjacentNodes(q);
            if (std::find(back.begin(), back.end(), pts[i]) == back.end())
                return vh::fail("adjacency is not mutual");
            deg[i]++;
            h = vh::mix(h, i * 64 + j);
            if (j > i)
            {
                const int a = root(root, i), b = root(root, j);
                if (a == b)
                    return vh::fail("the tree has a cycle");
                p[a] = b;
                got.push_back(d2(pts[i], pts[j]));
            }
        }
    }
    std::sort(got.begin(), got.end());
    if (got != want)
        return vh::fail("not a minimum spanning tree: %zu edges", got.size());
    std::set<int> lv;
    for (Point2LL q : t.leaves())
        if (! lv.insert(index(q)).second || deg[index(q)] > 1)
            return vh::fail("strange leaf");
    for (int i = 0; i < n; i++)
        if (deg[i] <= 1 && ! lv.count(i))
            return vh::fail("leaf missing");
    if (! t.adjacentNodes(Point2LL(123456, -99)).empty())
        return vh::fail("a point that was not given has neighbours");
    vh::state(vh::mix(h, n));
    vh::outcome(lv.size());
}
void explore()
{
    const bool T = vh::thorough();
    for (int n = 0; n <= 5; n++)
    {
        Sys s;
        for (int i = 0; i < n; i++)
        {
            s.handle.push_back(s.uf.add(i * 7));
            s.cls.push_back(i);
        }
        const int depth = (n <= 2 ? 6 : n == 3 ? 5 : n == 4 ? 4 : 3) + (T && n != 2 && n != 3);
        // the first operation is the case
        if (vh::begin("sets %d", n))
            verify(s, "");
        for (int i = 0; i < n; i++)
            for (int j = 0; j < n; j++)
                for (int root = 0; root < 2; root++)
                    if (vh::begin("sets %d %s %d %d", n, root ? "unite" : "unite handles", i, j))
                    {
                        Sys t = s;
                        uni(t, i, j, root);
                        dfs(t, depth - 1, "", n <= 3 ? n + 1 : n);
                    }
        if (n < 4 && vh::begin("sets %d add", n))
        {
            Sys t = s;
            t.handle.push_back(t.uf.add(n * 7));
            t.cls.push_back(n);
            dfs(t, n == 3 ? depth - 2 : depth - 1, "", 4);
        }
    }
    // tournaments of eight: the deepest trees there are
    for (int pairs = 0; pairs < 16; pairs++)
        for (int q = 0; q < 64; q++)
        {
            if (! vh::begin("tournament %d %d", pairs, q))
                continue;
            for (int f = 0; f < 32 && ! vh::g.case_failed; f++)
            {
                Sys s;
                for (int i = 0; i < 8; i++)
                {
                    s.handle.push_back(s.uf.add(i * 7));
                    s.cls.push_back(i);
                }
                auto join = [&](int i, int j, bool swap)
                {
                    if (swap)
                        std::swap(i, j);
                    s.uf.unite(s.handle[i], s.handle[j]);
                    const int from = s.cls[j], to = s.cls[i];
                    for (int& c : s.cls)
                        if (c == from)
                            c = to;
                };
                for (int i = 0; i < 4; i++)
                    join(2 * i, 2 * i + 1, pairs >> i & 1);
                join(q & 1, 2 + (q >> 1 & 1), q >> 2 & 1);
                join(4 + (q >> 3 & 1), 6 + (q >> 4 & 1), q >> 5 & 1);
                join(f & 3, 4 + (f >> 2 & 3), f >> 4 & 1);
                verify(s, "tournament");
            }
        }
    // five to seven elements: every sequence of unions by handles
    for (int n = 5; n <= (T ? 7 : 6); n++)
        for (int a = 0; a < n * n; a++)
            for (int b = 0; b < n * n; b++)
            {
                if (! vh::begin("unions %d %d %d", n, a, b))
                    continue;
                Sys s;
                for (int i = 0; i < n; i++)
                {
                    s.handle.push_back(s.uf.add(i * 7));
                    s.cls.push_back(i);
                }
                uni(s, a % n, a / n, false);
                uni(s, b % n, b / n, false);
                for (int c = 0; c < n * n && ! vh::g.case_failed; c++)
                    for (int d = 0; d < n * n && ! vh::g.case_failed; d++)
                    {
                        Sys t = s;
                        uni(t, c % n, c / n, false);
                        uni(t, d % n, d / n, false);
                        verify(t, "unions " + std::to_string(c) + " " + std::to_string(d));
                    }
            }
    const int emb[6][6] = { { 1, 0, 0, 1, 0, 0 }, { 1000, 0, 0, 1000, -1500, -700 }, { 37, 11, -8, 29, 5, 7 }, { 100000, 3, -7, 99999, -150000, -99999 }, { 0, -50, 333, 1, 0, 0 }, { 10, 9, 1, 11, -13, 200000 } };
    auto lattice = [&](int w, int hgt, int kmax, const char* name)
    {
        for (int m = 0; m < 6; m++)
            for (int bits = 0; bits < (1 << (w * hgt)); bits++)
            {
                const int k = __builtin_popcount(bits);
                if (k > kmax)
                    continue;
                if (! vh::begin("tree %s %d %d", name, m, bits))
                    continue;
                std::vector<Point2LL> pts;
                for (int c = 0; c < w * hgt; c++)
                    if (bits >> c & 1)
                    {
                        const int x = c % w, y = c / w;
                        pts.emplace_back(emb[m][0] * x + emb[m][2] * y + emb[m][4], emb[m][1] * x + emb[m][3] * y + emb[m][5]);
                    }
                tree(pts);
                if (vh::g.case_failed)
                    continue;
                std::reverse(pts.begin(), pts.end());
                tree(pts);
                if (k > 2)
                {
                    std::rotate(pts.begin(), pts.begin() + k / 2, pts.end());
                    tree(pts);
                }
            }
    };
    lattice(3, 3, 9, "3x3");
    lattice(4, 3, 12, "4x3");
    lattice(4, 4, T ? 16 : 5, "4x4");
    if (T)
        lattice(5, 4, 5, "5x4");
}
} // namespace
int main(int argc, char** argv)
{
    return vh::main_(argc, argv, explore, 16);
}
