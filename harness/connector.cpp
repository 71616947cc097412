// C38: groups of outlines placed in all ways next to, around and far from each other, connected into continuous lines.
#include "shapes.h"
#include "utils/ExtrusionLine.h"
#include "utils/PolygonConnector.h"
#include "vh.h"
using namespace cura;
using namespace vs;
namespace
{
constexpr i64 H = 200, W = 2 * H; // half a line width and a line width
struct Form
{
    int type; // 0: box, 1..4: half of it, 5: diamond, 6..9: L
    int x0, x1, y0, y1; // in half line widths
    int start, reverse;
};
Path make(const Form& f, const Embed& e)
{
    const i64 a = f.x0 * H, b = f.x1 * H, c = f.y0 * H, d = f.y1 * H, mx = (a + b) / 2, my = (c + d) / 2;
    Path box{ { a, c }, { b, c }, { b, d }, { a, d } }, p;
    if (f.type == 0)
        p = box;
    else if (f.type <= 4)
    {
        for (int i = 0; i < 4; i++)
            if (i != f.type - 1)
                p.push_back(box[i]);
    }
    else if (f.type == 5)
        p = { { mx, c }, { b, my }, { mx, d }, { a, my } };
    else
        for (int i = 0; i < 4; i++)
            if (i != f.type - 6)
                p.push_back(box[i]);
            else
            {
                const P o = box[i], u = box[(i + 3) % 4], v = box[(i + 1) % 4];
                p.push_back({ (o.x + u.x) / 2, (o.y + u.y) / 2 });
                p.push_back({ mx, my });
                p.push_back({ (o.x + v.x) / 2, (o.y + v.y) / 2 });
            }
    for (P& q : p)
        q = e(q);
    if ((e.det() < 0) != (f.reverse != 0))
        std::reverse(p.begin(), p.end());
    std::rotate(p.begin(), p.begin() + f.start % p.size(), p.end());
    return p;
}
double len(P a, P b)
{
    return std::hypot((double)(a.x - b.x), (double)(a.y - b.y));
}
double perimeter(const Path& p)
{
    double s = 0;
    for (size_t i = 0; i < p.size(); i++)
        s += len(p[i], p[(i + 1) % p.size()]);
    return s;
}
double segdist(P a, P b, P c, P d)
{
    const i128 s1 = cross(a, b, c), s2 = cross(a, b, d), s3 = cross(c, d, a), s4 = cross(c, d, b);
    if (((s1 > 0) != (s2 > 0)) && ((s3 > 0) != (s4 > 0)))
        return 0;
    return std::min({ dist(a, c, d), dist(b, c, d), dist(c, a, b), dist(d, a, b) });
}
double distance(const Path& p, const Path& q)
{
    double m = 1e300;
    for (size_t i = 0; i < p.size(); i++)
        for (size_t j = 0; j < q.size(); j++)
            m = std::min(m, segdist(p[i], p[(i + 1) % p.size()], q[j], q[(j + 1) % q.size()]));
    return m;
}
/*! what one closed result consists of */
bool judge(const Paths& in, const std::vector<Path>& out, const char* kind, double eps, bool must, bool boxes, double longest)
{
    const auto fail = [&](const char* t)
    {
        vh::fail("%s: %s: %s became %s", kind, t, str(in).c_str(), str(out).c_str());
        return false;
    };
    struct Bridge
    {
        P a, b;
        int from, to;
    };
    std::vector<Bridge> bridges;
    // edges of the result on edges of the outlines
    struct Iv
    {
        double a, b;
    };
    std::vector<std::vector<std::vector<Iv>>> cover(in.size());
    for (size_t i = 0; i < in.size(); i++)
        cover[i].resize(in[i].size());
    std::vector<int> root(in.size());
    for (size_t i = 0; i < in.size(); i++)
        root[i] = i;
    const std::function<int(int)> find = [&](int i) { return root[i] == i ? i : root[i] = find(root[i]); };
    for (const Path& o : out)
    {
        int owner = -1;
        std::vector<int> touched;
        for (size_t k = 0; k < o.size(); k++)
        {
            const P a = o[k], b = o[(k + 1) % o.size()];
            if (len(a, b) <= 4)
                continue;
            double best = eps;
            int bi = -1, bj = -1;
            for (size_t i = 0; i < in.size(); i++)
                for (size_t j = 0; j < in[i].size(); j++)
                {
                    const P c = in[i][j], d = in[i][(j + 1) % in[i].size()];
                    const double m = std::max(dist(a, c, d), dist(b, c, d));
                    if (m < best)
                        best = m, bi = i, bj = j;
                }
            if (bi >= 0)
            {
                const P c = in[bi][bj], d = in[bi][(bj + 1) % in[bi].size()];
                const double l = len(c, d);
                double ta = (double)dotp(c, d, a) / l, tb = (double)dotp(c, d, b) / l;
                if (ta > tb)
                    std::swap(ta, tb);
                cover[bi][bj].push_back({ ta, tb });
                touched.push_back(bi);
            }
            else
            {
                Bridge br{ a, b, -1, -1 };
                for (size_t i = 0; i < in.size(); i++)
                {
                    if (distBorder(a, { in[i] }) <= eps)
                        br.from = i;
                    if (distBorder(b, { in[i] }) <= eps)
                        br.to = i;
                }
                if (br.from < 0 || br.to < 0)
                    return fail("an edge that's neither on an outline nor between two of them");
                bridges.push_back(br);
            }
        }
        for (int t : touched)
        {
            if (owner >= 0 && find(owner) != find(t))
                root[find(t)] = find(owner);
            owner = t;
        }
    }
    size_t groups = 0;
    for (size_t i = 0; i < in.size(); i++)
        groups += find(i) == (int)i;
    if (groups != out.size())
        return fail("pieces of one outline end up in different lines");
    if (in.size() == 2 ? bridges.size() != 2 * (in.size() - groups) : bridges.size() > 2 * (in.size() - groups) || (groups < in.size() && bridges.size() <= in.size() - groups))
        return fail("a join isn't made of two bridges");
    double bl = 0;
    for (const Bridge& b : bridges)
    {
        if (b.from == b.to)
            return fail("a bridge that leads back to the same outline");
        if (len(b.a, b.b) > longest + eps)
            return fail("a bridge that's too long");
        bl += len(b.a, b.b);
    }
    for (size_t i = 0; i < in.size(); i++)
        for (size_t j = 0; j < i; j++)
            if (in.size() == 2 && find(i) == find(j) && distance(in[i], in[j]) >= longest + eps)
                return fail("outlines too far apart were joined");
    if (must && groups != 1)
        return fail("outlines next to each other weren't joined");
    // what isn't covered lies at the bridges, and nothing is covered twice
    double lost = 0, total = 0, result = 0;
    for (size_t i = 0; i < in.size(); i++)
        for (size_t j = 0; j < in[i].size(); j++)
        {
            const P c = in[i][j], d = in[i][(j + 1) % in[i].size()];
            const double l = len(c, d);
            total += l;
            auto& v = cover[i][j];
            std::sort(v.begin(), v.end(), [](const Iv& a, const Iv& b) { return a.a < b.a; });
            double at = 0;
            v.push_back({ l, l });
            for (const Iv& iv : v)
            {
                if (iv.a > at + 5)
                {
                    lost += iv.a - at;
                    for (double t : { at, (at + iv.a) / 2, iv.a })
                    {
                        const P q{ (i64)std::llround(c.x + (d.x - c.x) * t / l), (i64)std::llround(c.y + (d.y - c.y) * t / l) };
                        double best = 1e300;
                        for (const Bridge& b : bridges)
                            best = std::min(best, boxes ? dist(q, b.a, b.b) : std::abs((double)cross(b.a, b.b, q)) / len(b.a, b.b));
                        if (best > longest * 0.7)
                            return fail("a piece of an outline is missing");
                    }
                }
                if (iv.a < at - 5)
                    return fail("a piece of an outline is printed twice");
                at = std::max(at, iv.b);
            }
        }
    for (const Path& o : out)
        result += perimeter(o);
    if (std::abs(result - (total - lost + bl)) > 8 * (in.size() + bridges.size()) + 10)
        return fail("lengths don't add up");
    // the inside stays the inside, away from the bridges
    P lo{ 1LL << 60, 1LL << 60 }, hi{ -(1LL << 60), -(1LL << 60) };
    for (auto& p : in)
        for (auto& q : p)
            lo = { std::min(lo.x, q.x), std::min(lo.y, q.y) }, hi = { std::max(hi.x, q.x), std::max(hi.y, q.y) };
    for (int i = 0; i < 12; i++)
        for (int j = 0; j < 12; j++)
        {
            const P q{ lo.x + (hi.x - lo.x) * (2 * i + 1) / 24 + 7, lo.y + (hi.y - lo.y) * (2 * j + 1) / 24 + 3 };
            double best = 1e300;
            for (const Bridge& b : bridges)
                best = std::min(best, dist(q, b.a, b.b));
            if (best < 1.5 * W || distBorder(q, in) < 10)
                continue;
            if (evenOdd(q, in) != evenOdd(q, out))
                return fail("the enclosed area changes");
        }
    uint64_t h = 7;
    for (auto& o : out)
        for (auto& q : o)
            h = vh::mix(h, q.x * 1000003 + q.y);
    vh::state(h);
    return true;
}
bool adjacent(const Form& f, const Form& g) // boxes that clearly should be joined
{
    if (f.type || g.type)
        return false;
    const auto overlap = [](int a, int b, int c, int d) { return std::min(b, d) - std::max(a, c); };
    const auto near = [](int a, int b) { return std::abs(a - b) < 3; };
    const int need = 6; // line widths: 3
    if (f.x1 - f.x0 < 4 || f.y1 - f.y0 < 4 || g.x1 - g.x0 < 4 || g.y1 - g.y0 < 4)
        return false;
    if (overlap(f.x0, f.x1, g.x0, g.x1) >= need && (near(f.y1, g.y0) || near(g.y1, f.y0) || near(f.y0, g.y0) || near(f.y1, g.y1)))
        return true;
    return overlap(f.y0, f.y1, g.y0, g.y1) >= need && (near(f.x1, g.x0) || near(g.x1, f.x0) || near(f.x0, g.x0) || near(f.x1, g.x1));
}
bool crossing(const Path& p, const Path& q)
{
    return distance(p, q) < 30;
}
void polygons(const std::vector<Form>& fs, const Embed& e)
{
    Paths in;
    for (const Form& f : fs)
        in.push_back(make(f, e));
    for (size_t i = 0; i < in.size(); i++)
        for (size_t j = 0; j < i; j++)
            if (crossing(in[i], in[j]))
                return;
    const bool must = in.size() == 2 && e.det() * e.det() == 1 && adjacent(fs[0], fs[1]);
    vh::trans();
    PolygonConnector pc(W);
    pc.add(toShape(in));
    Shape out;
    std::vector<VariableWidthLines> lines;
    pc.connect(out, lines);
    size_t n = 0;
    for (auto& l : lines)
        n += l.size();
    if (n)
        return vh::fail("lines out of nothing");
    judge(in, fromShape(out), "outlines", 4, must, fs[0].type + fs[1].type == 0, 1.5 * W);
}
void widths(const std::vector<Form>& fs, const Embed& e, const std::vector<int>& ws)
{
    Paths in;
    for (const Form& f : fs)
        in.push_back(make(f, e));
    for (size_t i = 0; i < in.size(); i++)
        for (size_t j = 0; j < i; j++)
            if (crossing(in[i], in[j]))
                return;
    vh::trans();
    std::vector<VariableWidthLines> lines(1), out;
    const bool first = (fs[0].type + fs[1].type) % 2;
    const auto add_open = [&]()
    {
        lines[0].emplace_back(1, true);
        for (const P& q : in[0])
            lines[0].back().emplace_back(Point2LL(q.x + 50, q.y + 50), 300, 1);
    };
    if (first)
        add_open();
    for (size_t i = 0; i < in.size(); i++)
    {
        lines[0].emplace_back(1, false);
        for (size_t j = 0; j <= in[i].size(); j++)
        {
            const P q = in[i][j % in[i].size()];
            lines[0].back().emplace_back(Point2LL(q.x, q.y), ws[(i + j % in[i].size()) % ws.size()], 1);
        }
        lines[0].back().is_closed_ = true;
    }
    // and an open line in between, that has to stay as it is
    if (! first)
        add_open();
    const ExtrusionLine open = first ? lines[0].front() : lines[0].back();
    PolygonConnector pc(W);
    pc.add(lines);
    Shape sh;
    pc.connect(sh, out);
    if (sh.size())
        return vh::fail("outlines out of nothing");
    Paths closed;
    int same = 0;
    for (auto& l : out)
        for (ExtrusionLine& x : l)
        {
            if (x.size() == open.size() && x.junctions_ == open.junctions_ && ! x.is_closed_)
            {
                same++;
                continue;
            }
            if (! x.is_closed_)
                return vh::fail("a closed line became an open one");
            if (x.front().p_ != x.back().p_)
                return vh::fail("a closed line doesn't end where it starts");
            Path p;
            for (size_t i = 0; i + 1 < x.size(); i++)
            {
                p.push_back({ x[i].p_.X, x[i].p_.Y });
                bool fits = in.size() > 2; // the width is that of a line it lies on (or on an earlier bridge)
                for (size_t a = 0; a < in.size(); a++)
                    for (size_t b = 0; b < in[a].size(); b++)
                    {
                        const P c = in[a][b], d = in[a][(b + 1) % in[a].size()];
                        if (dist(p.back(), c, d) > 3)
                            continue;
                        const double t = len(c, p.back()) / len(c, d);
                        const int wc = ws[(a + b) % ws.size()], wd = ws[(a + (b + 1) % in[a].size()) % ws.size()];
                        fits |= std::abs(wc + t * (wd - wc) - x[i].w_) < 4;
                    }
                if (! fits)
                    return vh::fail("a vertex at (%lld,%lld) of width %lld doesn't have the width of its line: %s", p.back().x, p.back().y, (long long)x[i].w_, str(in).c_str());
                if (x[i].w_ < *std::min_element(ws.begin(), ws.end()) - 2 || x[i].w_ > *std::max_element(ws.begin(), ws.end()) + 2)
                    return vh::fail("a width that doesn't come from the lines: %lld", (long long)x[i].w_);
            }
            closed.push_back(p);
        }
    if (same != 1)
        return vh::fail("the open line didn't stay as it was");
    judge(in, closed, "lines", 4, false, fs[0].type + fs[1].type == 0, 0.5 * W + *std::max_element(ws.begin(), ws.end()));
}
void explore()
{
    const bool T = vh::thorough();
    const std::vector<int> K = T ? std::vector<int>{ 0, 2, 3, 4, 5, 8, 10, 12, 15, 22 } : std::vector<int>{ 0, 2, 4, 5, 8, 10, 13, 20 };
    const std::vector<int> K3 = T ? std::vector<int>{ 0, 2, 4, 8, 10, 18 } : std::vector<int>{ 0, 2, 8, 10, 18 };
    const auto ivs = [](const std::vector<int>& k)
    {
        std::vector<std::pair<int, int>> r;
        for (size_t i = 0; i < k.size(); i++)
            for (size_t j = i + 1; j < k.size(); j++)
                r.push_back({ k[i], k[j] });
        return r;
    };
    const auto em = embeds(1);
    const auto I = ivs(K), J = ivs(K3);
    // pairs of boxes
    for (auto& x : I)
        for (auto& y : I)
            if (vh::begin("pairs with box %d..%d %d..%d", x.first, x.second, y.first, y.second))
            {
                int n = 0;
                for (auto& u : I)
                    for (auto& v : I)
                    {
                        n++;
                        polygons({ { 0, x.first, x.second, y.first, y.second, 0, 0 }, { 0, u.first, u.second, v.first, v.second, n % 4, n / 4 % 2 } }, em[n % 3]);
                    }
            }
    // pairs of other forms
    for (int t = 0; t < 10; t++)
        for (auto& x : J)
            for (auto& y : J)
                if (vh::begin("pairs with form %d %d..%d %d..%d", t, x.first, x.second, y.first, y.second))
                    for (int s = 0; s < 10; s++)
                        for (auto& u : J)
                            for (auto& v : J)
                                for (int r = 0; r < (T ? 8 : 2); r++)
                                    for (int e : { 0, 4 })
                                    {
                                        if (e && r)
                                            continue;
                                        polygons({ { t, x.first, x.second, y.first, y.second, r % 4, r / 4 }, { s, u.first, u.second, v.first, v.second, (t + r) % 3, (s + r) % 2 } }, em[e]);
                                        if (t < 6 && s < 6 && (T || r == 0))
                                            widths({ { t, x.first, x.second, y.first, y.second, r % 4, r / 4 }, { s, u.first, u.second, v.first, v.second, (t + r) % 3, (s + r) % 2 } }, em[e], { 400, 300, 500, 400 });
                                    }
    // triples of boxes, and with a fourth one around them
    for (auto& x : J)
        for (auto& y : J)
            for (auto& u : J)
                for (auto& v : J)
                    if (vh::begin("triples with %d..%d %d..%d %d..%d %d..%d", x.first, x.second, y.first, y.second, u.first, u.second, v.first, v.second))
                        for (auto& p : J)
                            for (auto& q : J)
                            {
                                std::vector<Form> f{ { 0, x.first, x.second, y.first, y.second, 0, 0 }, { 0, u.first, u.second, v.first, v.second, 1, 1 }, { 0, p.first, p.second, q.first, q.second, 2, 0 } };
                                polygons(f, em[0]);
                                if (T)
                                    widths(f, em[0], { 400 });
                                f.push_back({ 0, -2, 20, -2, 20, 0, 0 });
                                polygons(f, em[1]);
                            }
}
} // namespace
int main(int argc, char** argv)
{
    return vh::main_(argc, argv, explore, 4);
}
