// Outlines drawn as images of cells of many sizes, and lattice polygons, taken through WallsComputation (C27). The beads that come out
// are painted onto a fine raster and compared with the outline: nothing outside, no gap and no double cover larger than a little square.
#include "ExtruderTrain.h"
#include "Slice.h"
#include "WallsComputation.h"
#include "settings/types/Angle.h"
#include "shapes.h"
#include "sliceDataStorage.h"
#include "utils/ExtrusionLine.h"
#include "vh.h"
#include "world.h"

using namespace cura;
using namespace vs;

constexpr int STEP = 40; // raster

struct Raster
{
    i64 x0, y0;
    int w, h;
    std::vector<short> count, last;
    std::vector<char> in, inner;
    void init(const Paths& o)
    {
        i64 a = 1e15, b = 1e15, c = -1e15, d = -1e15;
        for (auto& p : o)
            for (auto& q : p)
            {
                a = std::min(a, q.x);
                b = std::min(b, q.y);
                c = std::max(c, q.x);
                d = std::max(d, q.y);
            }
        x0 = a - 600;
        y0 = b - 600;
        w = (int)((c + 600 - x0) / STEP) + 1;
        h = (int)((d + 600 - y0) / STEP) + 1;
        count.assign((size_t)w * h, 0);
        last.assign((size_t)w * h, -1);
        in = fill(o);
    }
    P at(int x, int y) const
    {
        return { x0 + (i64)x * STEP + 1, y0 + (i64)y * STEP + 1 };
    }
    std::vector<char> fill(const Paths& ps) const
    {
        std::vector<char> r((size_t)w * h, 0);
        std::vector<double> xs;
        for (int y = 0; y < h; y++)
        {
            const double yy = (double)at(0, y).y + 0.5;
            xs.clear();
            for (auto& p : ps)
                for (size_t i = 0; i < p.size(); i++)
                {
                    const P &a = p[i], &b = p[(i + 1) % p.size()];
                    if ((a.y > yy) != (b.y > yy))
                        xs.push_back(a.x + (yy - a.y) * (double)(b.x - a.x) / (double)(b.y - a.y));
                }
            std::sort(xs.begin(), xs.end());
            for (size_t k = 0; k + 1 < xs.size(); k += 2)
                for (int x = std::max(0, (int)std::ceil((xs[k] - x0 - 1) / STEP)); x < w && at(x, y).x < xs[k + 1]; x++)
                    r[(size_t)y * w + x] = 1;
        }
        return r;
    }
    // distance to the borders, up to a limit
    std::vector<float> distance(const Paths& ps, double limit) const
    {
        std::vector<float> r((size_t)w * h, (float)limit);
        for (auto& p : ps)
            for (size_t i = 0; i < p.size(); i++)
            {
                const P &a = p[i], &b = p[(i + 1) % p.size()];
                seg(a, b, limit, [&](size_t k, double d, double) { r[k] = std::min(r[k], (float)d); });
            }
        return r;
    }
    template<class F>
    void seg(P a, P b, double r, F f) const
    {
        const int xa = std::max(0, (int)((std::min(a.x, b.x) - r - x0) / STEP) - 1), xb = std::min(w - 1, (int)((std::max(a.x, b.x) + r - x0) / STEP) + 1);
        const int ya = std::max(0, (int)((std::min(a.y, b.y) - r - y0) / STEP) - 1), yb = std::min(h - 1, (int)((std::max(a.y, b.y) + r - y0) / STEP) + 1);
        const double dx = b.x - a.x, dy = b.y - a.y, l2 = dx * dx + dy * dy;
        for (int y = ya; y <= yb; y++)
            for (int x = xa; x <= xb; x++)
            {
                const P q = at(x, y);
                const double t = l2 == 0 ? 0 : std::clamp(((q.x - a.x) * dx + (q.y - a.y) * dy) / l2, 0.0, 1.0);
                const double ex = a.x + t * dx - q.x, ey = a.y + t * dy - q.y, d = std::sqrt(ex * ex + ey * ey);
                if (d <= r)
                    f((size_t)y * w + x, d, t);
            }
    }
    void paint(const ExtrusionLine& l, short id)
    {
        for (size_t i = 0; i + 1 < l.junctions_.size(); i++)
        {
            const auto &a = l.junctions_[i], &b = l.junctions_[i + 1];
            const double wa = a.w_ / 2.0, wb = b.w_ / 2.0;
            seg({ a.p_.X, a.p_.Y },
                { b.p_.X, b.p_.Y },
                std::max(wa, wb),
                [&](size_t k, double d, double t)
                {
                    if (d <= wa + (wb - wa) * t && last[k] != id)
                    {
                        last[k] = id;
                        count[k]++;
                    }
                });
        }
    }
    // side of the largest square of marked pixels
    template<class F>
    int square(F marked, P& where) const
    {
        std::vector<int> row(w, 0);
        int best = 0;
        for (int y = 0; y < h; y++)
        {
            int diag = 0;
            for (int x = 0; x < w; x++)
            {
                const int up = row[x], left = x ? row[x - 1] : 0;
                const int v = marked((size_t)y * w + x) ? 1 + (x && y ? std::min({ up, left, diag }) : 0) : 0;
                diag = up;
                row[x] = v;
                if (v > best)
                {
                    best = v;
                    where = at(x, y);
                }
            }
        }
        return best ? (best - 1) * STEP : 0;
    }
    // extent of the largest connected set of marked squares of k pixels
    template<class F>
    int extent(F marked, int k, P& where) const
    {
        std::vector<int> sq((size_t)w * h, 0);
        for (int y = 0; y < h; y++)
            for (int x = 0; x < w; x++)
            {
                const size_t i = (size_t)y * w + x;
                if (marked(i))
                    sq[i] = 1 + (x && y ? std::min({ sq[i - 1], sq[i - w], sq[i - w - 1] }) : 0);
            }
        std::vector<char> open((size_t)w * h, 0);
        for (int y = k - 1; y < h; y++)
            for (int x = k - 1; x < w; x++)
                if (sq[(size_t)y * w + x] >= k)
                    for (int b = 0; b < k; b++)
                        for (int a = 0; a < k; a++)
                            open[(size_t)(y - b) * w + x - a] = 1;
        int best = 0;
        std::vector<int> st;
        for (size_t i = 0; i < open.size(); i++)
        {
            if (! open[i])
                continue;
            int xa = 1e9, xb = -1, ya = 1e9, yb = -1;
            st.push_back((int)i);
            open[i] = 0;
            while (! st.empty())
            {
                const int c = st.back(), x = c % w, y = c / w;
                st.pop_back();
                xa = std::min(xa, x);
                xb = std::max(xb, x);
                ya = std::min(ya, y);
                yb = std::max(yb, y);
                const int n[4] = { x ? c - 1 : c, x + 1 < w ? c + 1 : c, y ? c - w : c, y + 1 < h ? c + w : c };
                for (int j : n)
                    if (open[j])
                    {
                        open[j] = 0;
                        st.push_back(j);
                    }
            }
            const int e = std::max(xb - xa, yb - ya) * STEP;
            if (e > best)
            {
                best = e;
                where = at((xa + xb) / 2, (ya + yb) / 2);
            }
        }
        return best;
    }
};

static SliceLayer makeLayer(const Paths& o)
{
    SliceLayer layer;
    Shape s = toShape(o).unionPolygons();
    for (const SingleShape& part : s.splitIntoParts())
    {
        layer.parts.emplace_back();
        layer.parts.back().outline = part;
    }
    return layer;
}
static uint64_t hashWalls(const SliceLayer& l)
{
    uint64_t h = l.parts.size();
    for (auto& p : l.parts)
    {
        h = vh::mix(h, hashPaths(fromShape(p.inner_area)));
        for (auto& v : p.wall_toolpaths)
            for (auto& e : v)
            {
                h = vh::mix(h, e.inset_idx_ * 4 + e.is_closed_ * 2 + e.is_odd_);
                for (auto& j : e)
                    h = vh::mix(vh::mix(vh::mix(h, j.p_.X), j.p_.Y), j.w_);
            }
    }
    return h;
}

struct Opt
{
    i64 w0 = 350, wx = 300; // as the settings
    i64 inset0 = 0, insetx = 0;
    int walls = 2, layer = 1, bottoms = 0;
    bool thin = false, alternate = false, spiral = false;
    double factor = 1;
    const char* name = "";
};
static std::string mm(i64 v)
{
    char b[40];
    snprintf(b, sizeof b, "%.3f", v / 1000.0);
    return b;
}
static int configure(Scene& scene, const Opt& o) // returns the number of walls asked for
{
    Settings& s = scene.settings;
    s.add("wall_line_count", std::to_string(o.walls));
    s.add("wall_line_width_0", mm(o.w0));
    s.add("wall_line_width_x", mm(o.wx));
    s.add("wall_0_inset", mm(o.inset0));
    s.add("wall_x_inset", mm(o.insetx));
    s.add("fill_outline_gaps", o.thin ? "True" : "False");
    s.add("alternate_extra_perimeter", o.alternate ? "True" : "False");
    s.add("magic_spiralize", o.spiral ? "True" : "False");
    s.add("initial_bottom_layers", std::to_string(o.bottoms));
    s.add("initial_layer_line_width_factor", mm((i64)std::llround(o.factor * 100000)));
    int n = o.walls;
    if (o.spiral && o.layer < o.bottoms && o.layer % 2)
        n += 5;
    if (o.alternate && o.layer % 2)
        n++;
    return n;
}
static Opt opt(const char* name, int walls, std::function<void(Opt&)> f = nullptr)
{
    Opt o;
    o.name = name;
    o.walls = walls;
    if (f)
        f(o);
    return o;
}
// What holds of every line
static bool labels(const SliceLayer& layer, int walls, const char* what)
{
    for (auto& p : layer.parts)
    {
        int before = -1;
        for (auto& v : p.wall_toolpaths)
        {
            if (v.empty())
            {
                vh::fail("%s: an empty group of lines", what);
                return false;
            }
            const int idx = (int)v.front().inset_idx_;
            if (idx < before)
            {
                vh::fail("%s: lines of inset %d come after those of inset %d", what, idx, before);
                return false;
            }
            before = idx;
            if (idx >= walls)
            {
                vh::fail("%s: a line is labelled inset %d where %d walls are asked for", what, idx, walls);
                return false;
            }
            for (auto& e : v)
            {
                if ((int)e.inset_idx_ != idx)
                {
                    vh::fail("%s: a line of inset %d among those of inset %d", what, (int)e.inset_idx_, idx);
                    return false;
                }
                if (e.junctions_.empty())
                {
                    vh::fail("%s: an empty line", what);
                    return false;
                }
                for (auto& j : e)
                    if (j.w_ <= 0)
                    {
                        vh::fail("%s: a line of inset %d has width %lld at (%lld, %lld)", what, idx, (i64)j.w_, (i64)j.p_.X, (i64)j.p_.Y);
                        return false;
                    }
                if (e.is_closed_ && (e.junctions_.front().p_.X != e.junctions_.back().p_.X || e.junctions_.front().p_.Y != e.junctions_.back().p_.Y))
                {
                    vh::fail("%s: a closed line of inset %d does not return to its start", what, idx);
                    return false;
                }
            }
        }
    }
    return true;
}
static int H[8][200];
struct Tol
{
    double spill;
    int gap, dbl, inn;
};
static Tol tolerance(const Opt& o)
{
    const bool wide = o.wx > 400;
    return { wide || o.thin ? 120.0 : 105.0, wide ? 1250 : 700, 1000, 400 };
}
// the raster against the outline: extents (of places wider than 120 microns) of gaps, double cover and cover of the inner area
static void judge(const Paths& outline, const SliceLayer& layer, const Opt& o, const char* what, const Tol& tol)
{
    Raster r;
    r.init(outline);
    Paths inner;
    short id = 0;
    for (auto& p : layer.parts)
    {
        for (auto& q : fromShape(p.inner_area))
            inner.push_back(q);
        for (auto& v : p.wall_toolpaths)
            for (auto& e : v)
                r.paint(e, id++);
    }
    r.inner = r.fill(inner);
    const auto dist = r.distance(outline, 2000);
    double spill = 0;
    P at{ 0, 0 }, atg, atd, ati;
    for (size_t k = 0; k < r.count.size(); k++)
        if (! r.in[k])
        {
            if (r.count[k] && dist[k] > spill)
            {
                spill = dist[k];
                at = r.at(k % r.w, k / r.w);
            }
            if (r.inner[k] && dist[k] > 60 && ! getenv("WV"))
            {
                vh::fail("%s: the inner area reaches %.0f microns outside the outline at (%lld, %lld)", what, (double)dist[k], r.at(k % r.w, k / r.w).x, r.at(k % r.w, k / r.w).y);
                return;
            }
        }
    // places wide enough to be printed: within reach of a point that is deep enough inside
    const double R = (o.thin ? 100 : 340) / 2 + 25;
    std::vector<char> wide(r.count.size(), 0);
    const int rr = (int)(R / STEP);
    for (int y = rr; y + rr < r.h; y++)
        for (int x = rr; x + rr < r.w; x++)
        {
            const size_t k = (size_t)y * r.w + x;
            if (! r.in[k] || dist[k] < R)
                continue;
            if (dist[k] > R + 2 * STEP)
                wide[k] = 1;
            else
                for (int b = -rr; b <= rr; b++)
                    for (int a = -rr; a <= rr; a++)
                        if (a * a + b * b <= rr * rr)
                            wide[k + (i64)b * r.w + a] = 1;
        }
    const int gap = r.extent([&](size_t k) { return wide[k] && ! r.count[k] && ! r.inner[k]; }, 4, atg);
    const int dbl = r.extent([&](size_t k) { return r.count[k] > 1; }, 4, atd);
    const int inn = r.extent([&](size_t k) { return r.count[k] && r.inner[k]; }, 4, ati);
    const int M[4] = { (int)spill, gap, dbl, inn };
    for (int i = 0; i < 4; i++)
        H[i][std::min(199, M[i] / 20)]++;
    vh::trans(r.count.size());
    vh::outcome(vh::mix(vh::mix((int)spill / 10, gap), vh::mix(dbl, inn)));
    if (const char* e = getenv("WV"))
    {
        if (M[atoi(e)] > atoi(strchr(e, ',') + 1))
            printf("%s: spill %d (%lld,%lld) gap %d (%lld,%lld) dbl %d (%lld,%lld) inn %d (%lld,%lld) %s\n", what, M[0], at.x, at.y, gap, atg.x, atg.y, dbl, atd.x, atd.y, inn, ati.x, ati.y, str(outline).c_str());
        return;
    }
    if (spill > tol.spill)
        vh::fail("%s: printed %.0f microns outside the outline at (%lld, %lld); outline %s", what, spill, at.x, at.y, str(outline).c_str());
    else if (gap > tol.gap)
        vh::fail("%s: neither walls nor inner area over %d microns around (%lld, %lld); outline %s", what, gap, atg.x, atg.y, str(outline).c_str());
    else if (dbl > tol.dbl)
        vh::fail("%s: printed twice over %d microns around (%lld, %lld); outline %s", what, dbl, atd.x, atd.y, str(outline).c_str());
    else if (inn > tol.inn)
        vh::fail("%s: walls inside the inner area over %d microns around (%lld, %lld); outline %s", what, inn, ati.x, ati.y, str(outline).c_str());
}
static SliceLayer walls(Scene& scene, const Paths& outline, const Opt& o)
{
    SliceLayer layer = makeLayer(outline);
    WallsComputation wc(scene.mesh_groups[0].settings, LayerIndex(o.layer));
    wc.generateWalls(&layer, SectionType::WALL);
    vh::trans();
    vh::state(hashWalls(layer));
    return layer;
}
// Outlines wide enough everywhere for all walls: every wall at its depth, in its width, all around
static void thick(const Paths& outline, const SliceLayer& layer, const Opt& o, int n, const char* what)
{
    const double f = o.layer == 0 ? o.factor : 1;
    const double w0 = o.w0 * f, wx = o.wx * f, W = w0 + (n - 1) * wx;
    if (o.spiral)
    {
        Paths sp;
        for (auto& p : layer.parts)
            for (auto& q : fromShape(p.spiral_wall))
                sp.push_back(q);
        const double depth = w0 / 2 + o.inset0;
        for (auto& q : sp)
            for (auto& v : q)
            {
                const double d = distBorder(v, outline);
                if (d < depth - 12 || d > depth * 1.5 + 12 || ! evenOdd(v, outline)) // corners stay sharp
                {
                    vh::fail("%s: the spiral wall at (%lld, %lld) is %.0f microns inside instead of %.0f", what, v.x, v.y, d, depth);
                    return;
                }
            }
        Raster r;
        r.init(outline);
        const auto in = r.fill(sp);
        const auto dist = r.distance(outline, depth + 400);
        vh::trans(r.count.size());
        for (size_t k = 0; k < r.count.size(); k++)
            if (in[k] ? ! r.in[k] || dist[k] < depth - 12 : r.in[k] && dist[k] > depth * 1.5 + 12)
            {
                vh::fail("%s: (%lld, %lld), %.0f microns from the outline, is %s the spiral wall", what, r.at(k % r.w, k / r.w).x, r.at(k % r.w, k / r.w).y, (double)dist[k], in[k] ? "inside" : "outside");
                return;
            }
        if (o.layer > o.bottoms)
        {
            for (auto& p : layer.parts)
                if (! p.wall_toolpaths.empty())
                {
                    vh::fail("%s: walls besides the spiral", what);
                    return;
                }
            return;
        }
    }
    std::vector<double> len(n + 1, 0);
    for (auto& p : layer.parts)
    {
        for (auto& v : p.wall_toolpaths)
            for (auto& e : v)
            {
                const int i = (int)e.inset_idx_;
                const double depth = i == 0 ? w0 / 2 + o.inset0 : w0 + (i - 0.5) * wx + o.insetx, width = i == 0 ? w0 : wx;
                if (! e.is_closed_ || e.is_odd_)
                {
                    vh::fail("%s: a wall of inset %d that is not a closed ring", what, i);
                    return;
                }
                for (size_t k = 0; k < e.junctions_.size(); k++)
                {
                    auto& j = e.junctions_[k];
                    const P q{ j.p_.X, j.p_.Y };
                    const double d = distBorder(q, outline);
                    if (std::abs(d - depth) > 25 || ! evenOdd(q, outline))
                    {
                        vh::fail("%s: inset %d at (%lld, %lld) is %.0f microns inside instead of %.0f", what, i, q.x, q.y, d, depth);
                        return;
                    }
                    if (std::abs(j.w_ - width) > 3)
                    {
                        vh::fail("%s: inset %d is %lld wide instead of %.0f", what, i, (i64)j.w_, width);
                        return;
                    }
                    if (k)
                        len[i] += std::hypot((double)(j.p_.X - e.junctions_[k - 1].p_.X), (double)(j.p_.Y - e.junctions_[k - 1].p_.Y));
                }
            }
    }
    // every ring is complete: at each place of its depth one of its lines passes
    Raster r;
    r.init(outline);
    const auto dist = r.distance(outline, W + 400);
    Paths inner;
    for (auto& p : layer.parts)
        for (auto& q : fromShape(p.inner_area))
            inner.push_back(q);
    r.inner = r.fill(inner);
    std::vector<std::vector<char>> near(n, std::vector<char>(r.count.size(), 0));
    for (auto& p : layer.parts)
        for (auto& v : p.wall_toolpaths)
            for (auto& e : v)
                for (size_t k = 0; k + 1 < e.junctions_.size(); k++)
                {
                    auto &a = e.junctions_[k].p_, &b = e.junctions_[k + 1].p_;
                    auto& nn = near[e.inset_idx_];
                    r.seg({ a.X, a.Y }, { b.X, b.Y }, 110, [&](size_t i, double, double) { nn[i] = 1; });
                }
    vh::trans(r.count.size());
    for (size_t k = 0; k < r.count.size(); k++)
    {
        const P q = r.at(k % r.w, k / r.w);
        const double d = r.in[k] ? (double)dist[k] : -(double)dist[k];
        for (int i = 0; i < n; i++)
        {
            const double depth = i == 0 ? w0 / 2 + o.inset0 : w0 + (i - 0.5) * wx + o.insetx;
            if (std::abs(d - depth) < 25 && ! near[i][k])
            {
                vh::fail("%s: no wall of inset %d near (%lld, %lld)", what, i, q.x, q.y);
                return;
            }
        }
        if (r.inner[k] ? d < W - 40 : d > W + 60)
        {
            vh::fail("%s: (%lld, %lld), %.0f microns inside, is %s the inner area", what, q.x, q.y, d, r.inner[k] ? "in" : "not in");
            return;
        }
    }
    for (auto& p : layer.parts)
        if (hashPaths(fromShape(p.print_outline)) != hashPaths(fromShape(p.outline)))
        {
            vh::fail("%s: the printed outline is not the outline", what);
            return;
        }
}
static Embed turned(int k, i64 s)
{
    static const Embed E[] = { { 1, 0, 0, 1, 0, 0, "id" }, { 3, -4, 4, 3, 7000, -9000, "345" }, { -1, 0, 0, 1, 200000, 200000, "mirror" }, { 12, 5, -5, 12, 0, 0, "5-12" } };
    Embed e = E[k];
    (void)s;
    return e;
}
// corners in microns, turned; lengths kept
static Paths place(Paths ps, int turn)
{
    const Embed e = turned(turn, 1);
    const double n = std::hypot((double)e.a, (double)e.b);
    for (auto& p : ps)
    {
        for (auto& q : p)
        {
            const P z = q;
            q = { (i64)std::llround((e.a * z.x + e.b * z.y) / n) + e.tx, (i64)std::llround((e.c * z.x + e.d * z.y) / n) + e.ty };
        }
        if (e.det() < 0)
            std::reverse(p.begin(), p.end());
    }
    return ps;
}
static Paths image(const std::vector<i64>& xs, const std::vector<i64>& ys, uint64_t m, int turn)
{
    const int w = (int)xs.size() - 1, h = (int)ys.size() - 1;
    Complex q = quads(w, h);
    for (int j = 0; j <= h; j++)
        for (int i = 0; i <= w; i++)
            q.v[j * (w + 1) + i] = { xs[i], ys[j] };
    return place(trace(q, m, Embed{ 1, 0, 0, 1, 0, 0, "id" }), turn);
}
static void report(const char* name)
{
    if (! getenv("WV"))
        return;
    const char* N[] = { "spill", "gap", "dbl", "inn" };
    for (int i = 0; i < 4; i++)
    {
        printf("H %s %s:", name, N[i]);
        for (int k = 0; k < 200; k++)
            if (H[i][k])
                printf(" %d:%d", k * 20, H[i][k]);
        printf("\n");
    }
    memset(H, 0, sizeof H);
    fflush(stdout);
}
static std::vector<Opt> thickOpts()
{
    std::vector<Opt> r;
    for (int n = 1; n <= 4; n++)
        r.push_back(opt("plain", n));
    r.push_back(opt("inset0", 2, [](Opt& o) { o.inset0 = 60; }));
    r.push_back(opt("insetx", 3, [](Opt& o) { o.insetx = 50; }));
    r.push_back(opt("alternate odd", 2, [](Opt& o) { o.alternate = true; }));
    r.push_back(opt("alternate even", 2, [](Opt& o) { o.alternate = true; o.layer = 2; }));
    r.push_back(opt("alternate below", 2, [](Opt& o) { o.alternate = true; o.layer = -3; }));
    r.push_back(opt("first layer", 2, [](Opt& o) { o.layer = 0; o.factor = 1.2; }));
    r.push_back(opt("second layer", 2, [](Opt& o) { o.layer = 1; o.factor = 1.2; }));
    r.push_back(opt("thin walls", 2, [](Opt& o) { o.thin = true; }));
    r.push_back(opt("wider inner", 3, [](Opt& o) { o.w0 = 400; o.wx = 500; }));
    r.push_back(opt("spiral", 1, [](Opt& o) { o.spiral = true; o.layer = 5; o.bottoms = 3; }));
    r.push_back(opt("spiral inset", 1, [](Opt& o) { o.spiral = true; o.layer = 5; o.bottoms = 3; o.inset0 = 40; }));
    r.push_back(opt("spiral even bottom", 1, [](Opt& o) { o.spiral = true; o.layer = 2; o.bottoms = 3; }));
    r.push_back(opt("spiral odd bottom", 1, [](Opt& o) { o.spiral = true; o.layer = 1; o.bottoms = 3; }));
    r.push_back(opt("spiral last bottom", 1, [](Opt& o) { o.spiral = true; o.layer = 3; o.bottoms = 3; }));
    r.push_back(opt("none", 0));
    return r;
}
static void explore()
{
    auto& scene = world::fresh(1, 1);
    scene.mesh_groups[0].settings.setParent(&scene.settings);
    const int Q = vh::thorough() ? 1 : 4;
    // wide outlines
    for (auto& o : thickOpts())
        for (uint64_t m = 1; m < 512; m++)
        {
            if (! unambiguous(3, 3, m) || m % Q)
                continue;
            for (int turn = 0; turn < 4; turn++)
            {
                if (vh::thorough() ? false : (int)(m / Q % 4) != turn)
                    continue;
                if (! vh::begin("thick %s %d walls image %d turn %d", o.name, o.walls, (int)m, turn))
                    continue;
                const int n = configure(scene, o);
                const i64 u = 2 * (400 + (i64)n * 520) + 900;
                const Paths outline = image({ 0, u, 2 * u + 300, 3 * u + 1000 }, { 0, u + 100, 2 * u + 700, 3 * u + 500 }, m, turn);
                SliceLayer l = walls(scene, outline, o);
                if (o.walls == 0)
                {
                    for (auto& p : l.parts)
                        if (! p.wall_toolpaths.empty() || hashPaths(fromShape(p.inner_area)) != hashPaths(fromShape(p.outline)) || p.print_outline.empty())
                            vh::fail("walls though none are asked for");
                    continue;
                }
                if (labels(l, n, o.name))
                    thick(outline, l, o, n, o.name);
            }
        }
    // strips of every thickness
    for (int L = 0; L < 3; L++)
        for (int n = 1; n <= 4; n++)
            for (int thin = 0; thin < 2; thin++)
                for (int T0 = 20; T0 < 3000; T0 += 200)
                {
                    if (! vh::begin("strip %d walls %d thin %d from %d", L, n, thin, T0))
                        continue;
                    Opt o = opt("strip", n, [&](Opt& x) { x.thin = thin; });
                    configure(scene, o);
                    for (int T = T0; T < T0 + 200; T += vh::thorough() ? 5 : 20)
                    {
                        const i64 len = 7000;
                        const Paths outline = place({ { { 0, 0 }, { len, 0 }, { len, T }, { 0, T } } }, L);
                        SliceLayer l = walls(scene, outline, o);
                        char what[80];
                        snprintf(what, sizeof what, "%d microns thick", T);
                        if (! labels(l, n, what))
                            break;
                        const P a = place({ { { len / 2 + 3, -500 } } }, L)[0][0], b = place({ { { len / 2 + 3, T + 500 } } }, L)[0][0];
                        std::vector<std::pair<double, double>> beads; // from, to: along the cut
                        auto cut = [&](P p, P q, double wp, double wq)
                        {
                            const double d1 = (double)cross(a, b, p), d2 = (double)cross(a, b, q);
                            if ((d1 > 0) == (d2 > 0))
                                return;
                            const double t = d1 / (d1 - d2), x = p.x + t * (q.x - p.x), y = p.y + t * (q.y - p.y);
                            const double s = std::hypot(x - a.x, y - a.y) - 500, w = wp + t * (wq - wp);
                            beads.emplace_back(s - w / 2, s + w / 2);
                        };
                        for (auto& p : l.parts)
                        {
                            for (auto& v : p.wall_toolpaths)
                                for (auto& e : v)
                                    for (size_t k = 0; k + 1 < e.junctions_.size(); k++)
                                        cut({ e.junctions_[k].p_.X, e.junctions_[k].p_.Y }, { e.junctions_[k + 1].p_.X, e.junctions_[k + 1].p_.Y }, e.junctions_[k].w_, e.junctions_[k + 1].w_);
                            std::vector<double> c;
                            for (auto& q : fromShape(p.inner_area))
                                for (size_t k = 0; k < q.size(); k++)
                                {
                                    const size_t before = beads.size();
                                    cut(q[k], q[(k + 1) % q.size()], 0, 0);
                                    if (beads.size() > before)
                                    {
                                        c.push_back(beads.back().first);
                                        beads.pop_back();
                                    }
                                }
                            std::sort(c.begin(), c.end());
                            for (size_t k = 0; k + 1 < c.size(); k += 2)
                                beads.emplace_back(c[k], c[k + 1]);
                        }
                        std::sort(beads.begin(), beads.end());
                        std::string text;
                        for (auto& [f, t] : beads)
                            text += " " + std::to_string((int)std::lround(f)) + ".." + std::to_string((int)std::lround(t));
                        vh::outcome(vh::hash(text));
                        const int least = thin ? 100 : 340;
                        if (beads.empty())
                        {
                            if (T > least + 10)
                                vh::fail("%s: no walls at all", what);
                            else if (! thin && ! l.parts.empty())
                                vh::fail("%s: a part without walls is kept", what);
                            continue;
                        }
                        if (T < least - 12)
                        {
                            vh::fail("%s: printed though too thin:%s", what, text.c_str());
                            break;
                        }
                        // a thin strip is printed as a wider line in its middle
                        const double ends = thin && T < 340 ? (340 - T) / 2.0 : 0;
                        bool bad = std::abs(beads.front().first + ends) > 16 || std::abs(beads.back().second - T - ends) > 16;
                        for (size_t k = 0; k + 1 < beads.size(); k++)
                            bad |= std::abs(beads[k].second - beads[k + 1].first) > 16;
                        if (bad)
                        {
                            vh::fail("%s: the walls and inner area across are at%s", what, text.c_str());
                            break;
                        }
                    }
                }
    // anything
    const std::vector<std::vector<i64>> X = { { 0, 300, 1300, 2000 }, { 0, 700, 1400, 4400 }, { 0, 450, 1450, 2500 }, { 0, 1200, 2400, 3600 }, { 0, 1000, 2000, 3000 }, { 0, 600, 1500, 3200 }, { 0, 850, 1950, 3500 }, { 0, 500, 1050, 1650 } };
    std::vector<Opt> any;
    for (int n = 1; n <= 3; n++)
        any.push_back(opt("plain", n));
    any.push_back(opt("thin walls", 2, [](Opt& o) { o.thin = true; }));
    any.push_back(opt("wide", 5, [](Opt& o) { o.w0 = 400; o.wx = 420; }));
    for (auto& o : any)
        for (size_t g = 0; g < X.size(); g++)
            for (int turn = 0; turn < (vh::thorough() ? 4 : 1); turn++)
            {
                const int t = vh::thorough() ? turn : (int)g % 4;
                for (int blk = 0; blk < 16; blk++)
                {
                    if (! vh::begin("any %s %d walls grid %d turn %d images from %d", o.name, o.walls, (int)g, t, blk * 32))
                        continue;
                    configure(scene, o);
                    for (int m = std::max(1, blk * 32); m < blk * 32 + 32; m++)
                    {
                        if (! unambiguous(3, 3, m))
                            continue;
                        const Paths outline = image(X[g], X[(g + 1) % X.size()], m, t);
                        char what[80];
                        snprintf(what, sizeof what, "image %d", m);
                        SliceLayer l = walls(scene, outline, o);
                        if (! labels(l, o.walls, what))
                            break;
                        if (m % 2 == 1 && hashWalls(walls(scene, outline, o)) != hashWalls(l))
                        {
                            if (getenv("WD"))
                                for (int z = 0; z < 2; z++)
                                {
                                    SliceLayer q = walls(scene, outline, o);
                                    for (auto& p : q.parts)
                                        for (auto& v : p.wall_toolpaths)
                                            for (auto& e : v)
                                            {
                                                printf("%d: inset %d closed %d odd %d:", z, (int)e.inset_idx_, (int)e.is_closed_, (int)e.is_odd_);
                                                for (auto& j : e)
                                                    printf(" (%lld,%lld,%lld)", (i64)j.p_.X, (i64)j.p_.Y, (i64)j.w_);
                                                printf("\n");
                                            }
                                }
                            vh::fail("%s: different walls the second time", what);
                        }
                        judge(outline, l, o, what, tolerance(o));
                    }
                    report(vh::g.key.c_str());
                }
            }
    const i64 U[] = { 700, 1000, 1400, 2100 };
    for (auto& o : any)
        for (int u = 0; u < 4; u++)
            for (int blk = 0; blk < 16; blk++)
            {
                if (! vh::begin("any %s %d walls triangles of %lld from %d", o.name, o.walls, U[u], blk * 16))
                    continue;
                configure(scene, o);
                for (int m = std::max(1, blk * 16); m < blk * 16 + 16; m++)
                {
                    const Complex c = tris2(2, 2);
                    const Paths outline = place(trace(c, m, Embed{ U[u], 0, 0, U[u], 0, 0, "id" }), (m + u) % 4);
                    char what[80];
                    snprintf(what, sizeof what, "triangles %d", m);
                    SliceLayer l = walls(scene, outline, o);
                    if (! labels(l, o.walls, what))
                        break;
                    judge(outline, l, o, what, tolerance(o));
                }
                report(vh::g.key.c_str());
            }
}
int main(int argc, char** argv)
{
    spdlog::set_level(spdlog::level::off);
    return vh::main_(argc, argv, explore, 1);
}
