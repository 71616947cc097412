// Interlocking beams (C46): two models drawn as images of cells with two colours, on stacks of layers, tied together by
// the real generator and judged against the cells of the beam lattice computed from the drawing.
#include "InterlockingGenerator.h"
#include "mesh.h"
#include "shapes.h"
#include "slicer.h"
#include "vh.h"
#include "world.h"
#include <map>
#include <numbers>
#include <set>

using namespace cura;
using namespace vs;

struct Conf
{
    i64 wa, wb; // beam widths
    int beam; // layers in a beam
    int depth, avoid;
    double turn;
    i64 pixel;
    size_t layers, change;
    i64 gap;
};
struct Pic
{
    int w, h;
    std::vector<char> c; // 0: air, 1: A, 2: B
    char at(int x, int y) const
    {
        return x < 0 || y < 0 || x >= w || y >= h ? 0 : c[y * w + x];
    }
    uint64_t mask(int which) const // bit 0: A, bit 1: B
    {
        uint64_t m = 0;
        for (size_t i = 0; i < c.size(); i++)
            if (c[i] & which)
                m |= 1ull << i;
        return m;
    }
};
struct Drawn
{
    std::vector<std::array<i64, 4>> edges; // borders, in pixels
    uint64_t mask;
};
using Cell = std::tuple<int, int, int>;
using Cells = std::set<Cell>;
static const P ORIGIN{ 1237, -2411 };

struct Frame
{
    double co, si;
    void turn(double x, double y, double& u, double& v) const
    {
        u = x * co - y * si;
        v = x * si + y * co;
    }
    void back(double u, double v, double& x, double& y) const
    {
        x = u * co + v * si;
        y = -u * si + v * co;
    }
};
// does the segment pass through the rectangle
static bool passes(double ax, double ay, double bx, double by, double x0, double y0, double x1, double y1)
{
    if (x1 <= x0 || y1 <= y0)
        return false;
    double t0 = 0, t1 = 1;
    const double d[2] = { bx - ax, by - ay }, o[2] = { ax, ay }, lo[2] = { x0, y0 }, hi[2] = { x1, y1 };
    for (int k = 0; k < 2; k++)
    {
        if (std::abs(d[k]) < 1e-9)
        {
            if (o[k] < lo[k] || o[k] > hi[k])
                return false;
            continue;
        }
        double a = (lo[k] - o[k]) / d[k], b = (hi[k] - o[k]) / d[k];
        if (a > b)
            std::swap(a, b);
        t0 = std::max(t0, a);
        t1 = std::min(t1, b);
    }
    return t0 <= t1;
}
struct Judge
{
    Conf c;
    Frame f;
    i64 cw;
    double margin;
    // cells of one layer: those whose square holds a piece of a border of `m`, and those whose middle lies in `s`
    void cellsOf(const Pic& im, int which, uint64_t skin, bool clear, int z, int kernel, Cells& must, Cells& may) const
    {
        const uint64_t m = im.mask(which);
        const int h2 = 2 * c.beam;
        const i64 shift = kernel % 2 ? 0 : cw / 2;
        auto dilate = [&](int i, int j, int k, Cells& out)
        {
            const int lo = -(kernel / 2), hi = kernel - kernel / 2 - 1;
            for (int x = lo; x <= hi; x++)
                for (int y = lo; y <= hi; y++)
                    for (int zz = lo; zz <= hi; zz++)
                    {
                        const double lx = x < 0 ? -lo : std::max(hi, 1), ly = y < 0 ? -lo : std::max(hi, 1);
                        if (std::abs(x) / lx + std::abs(y) / ly <= 1 + 1e-9)
                            out.insert({ i + x, j + y, k + zz });
                    }
        };
        auto put = [&](double ax, double ay, double bx, double by)
        {
            double u0, v0, u1, v1;
            f.turn(ax, ay, u0, v0);
            f.turn(bx, by, u1, v1);
            u0 += shift, v0 += shift, u1 += shift, v1 += shift;
            const int k = (int)std::floor((double)(z + (kernel % 2 ? 0 : c.beam)) / h2);
            for (int i = (int)std::floor((std::min(u0, u1) - margin) / cw); i <= std::floor((std::max(u0, u1) + margin) / cw); i++)
                for (int j = (int)std::floor((std::min(v0, v1) - margin) / cw); j <= std::floor((std::max(v0, v1) + margin) / cw); j++)
                {
                    vh::trans();
                    const double x = (double)i * cw, y = (double)j * cw;
                    if (passes(u0, v0, u1, v1, x - margin, y - margin, x + cw + margin, y + cw + margin))
                        dilate(i, j, k, may);
                    if (passes(u0, v0, u1, v1, x + margin, y + margin, x + cw - margin, y + cw - margin))
                        dilate(i, j, k, must);
                }
        };
        for (int y = 0; y <= im.h; y++)
            for (int x = 0; x <= im.w; x++)
            {
                auto in = [&](int a, int b) { return a >= 0 && b >= 0 && a < im.w && b < im.h && (m >> (b * im.w + a) & 1); };
                const double X = ORIGIN.x + (double)x * c.pixel, Y = ORIGIN.y + (double)y * c.pixel;
                if (in(x, y) != in(x, y - 1))
                    put(X, Y, X + c.pixel, Y);
                if (in(x, y) != in(x - 1, y))
                    put(X, Y, X, Y + c.pixel);
            }
        if (! skin)
            return;
        // (the middle of a layer's skin counts half a cell lower than its borders)
        const int k = (int)std::floor((double)(z - (kernel % 2 ? c.beam : 0)) / h2);
        for (int i = -20; i < 20; i++)
            for (int j = -20; j < 20; j++)
            {
                const double u = (i + 0.5) * cw - shift, v = (j + 0.5) * cw - shift;
                double x, y;
                f.back(u, v, x, y);
                const double px = (x - ORIGIN.x) / c.pixel, py = (y - ORIGIN.y) / c.pixel, e = margin / c.pixel;
                vh::trans();
                int sure = 1, maybe = 0;
                for (double dx : { -e, e })
                    for (double dy : { -e, e })
                    {
                        const int a = (int)std::floor(px + dx), b = (int)std::floor(py + dy);
                        const bool in = a >= 0 && b >= 0 && a < im.w && b < im.h && (skin >> (b * im.w + a) & 1);
                        sure &= in;
                        maybe |= in;
                    }
                if (sure && clear)
                    dilate(i, j, k, must);
                if (maybe)
                    dilate(i, j, k, may);
            }
    }
};
static bool inside(double x, double y, const Shape& s)
{
    bool r = false;
    for (auto& p : s)
        for (size_t i = 0; i < p.size(); i++)
        {
            const Point2LL &a = p[i], &b = p[(i + 1) % p.size()];
            if ((a.Y > y) != (b.Y > y) && x < a.X + (y - a.Y) * (double)(b.X - a.X) / (double)(b.Y - a.Y))
                r = ! r;
        }
    return r;
}
static void run(const Pic& low, const Pic& high, const Conf& c, int kind, int shell = 0) // kind 0: as usual, 1: one extruder, 2: B is an infill mesh; shell: A is the first so many columns of 8 (B, if negative)
{
    Scene& scene = world::fresh(2, 1);
    MeshGroup& group = scene.mesh_groups[0];
    group.settings.setParent(&scene.settings);
    auto& meshes = group.meshes;
    meshes.reserve(2);
    auto mm = [](i64 v) { return std::to_string((double)v / 1000); };
    for (auto& [k, v] : std::vector<std::pair<std::string, std::string>>{ { "interlocking_orientation", std::to_string(c.turn) },
                                                                          { "interlocking_beam_layer_count", std::to_string(c.beam) },
                                                                          { "interlocking_depth", std::to_string(c.depth) },
                                                                          { "interlocking_boundary_avoidance", std::to_string(c.avoid) } })
        group.settings.add(k, v);
    std::unique_ptr<Slicer> sl[2];
    for (int m = 0; m < 2; m++)
    {
        meshes.emplace_back(group.settings);
        Settings& s = meshes[m].settings_;
        s.add("wall_0_extruder_nr", kind == 1 || m == 0 ? "0" : "1");
        s.add("interlocking_beam_width", mm(m ? c.wb : c.wa));
        s.add("min_wall_line_width", "0.3");
        s.add("line_width", "0.4");
        s.add("infill_mesh", kind == 2 && m == 1 ? "true" : "false");
    }
    Judge j{ c, { std::cos(c.turn * std::numbers::pi / 180), std::sin(c.turn * std::numbers::pi / 180) }, c.wa + c.wb, 20.0 + (double)c.gap };
    const Complex q = quads(low.w, low.h);
    const Embed e{ c.pixel, 0, 0, c.pixel, ORIGIN.x, ORIGIN.y, "" };
    auto image = [&](size_t l) -> const Pic& { return l < c.change ? low : high; };
    double box[2][4] = { { 1e9, 1e9, -1e9, -1e9 }, { 1e9, 1e9, -1e9, -1e9 } };
    for (int m = 0; m < 2; m++)
    {
        sl[m].reset(new Slicer(&meshes[m], 200, c.layers, false, nullptr, SlicingTolerance::MIDDLE, 200));
        AABB3D& b = meshes[m].aabb_;
        b = AABB3D();
        for (size_t l = 0; l < c.layers; l++)
        {
            Shape s = toShape(trace(q, image(l).mask(1 << m), e));
            if (c.gap)
                s = s.offset(-c.gap / 2);
            for (auto& p : s)
                for (auto& v : p)
                {
                    b.include(Point3LL(v.X, v.Y, (i64)l * 200));
                    b.include(Point3LL(v.X, v.Y, (i64)l * 200 + 200));
                    box[m][0] = std::min(box[m][0], (double)v.X), box[m][1] = std::min(box[m][1], (double)v.Y), box[m][2] = std::max(box[m][2], (double)v.X), box[m][3] = std::max(box[m][3], (double)v.Y);
                }
            sl[m]->layers[l].polygons_ = s;
        }
    }
    const std::vector<SlicerLayer> was[2] = { sl[0]->layers, sl[1]->layers };
    std::vector<Slicer*> volumes{ sl[0].get(), sl[1].get() };
    InterlockingGenerator::generateInterlockingStructure(volumes);
    uint64_t h = 7;
    for (int m = 0; m < 2; m++)
        for (auto& l : sl[m]->layers)
            h = vh::mix(h, hashPaths(fromShape(l.polygons_)));
    vh::state(h);
    vh::outcome(h % 97);
    bool apart = kind != 0;
    for (int k = 0; k < 2; k++)
        apart |= box[0][k] > box[1][k + 2] + 1000 || box[1][k] > box[0][k + 2] + 1000;
    // the lattice
    Cells must[2], may[2], airMust, airMay;
    if (! apart)
    {
        for (size_t l = 0; l <= c.layers; l++)
        {
            static const Pic none{ 3, 3, std::vector<char>(9, 0) };
            const Pic& im = l < c.layers ? image(l) : none;
            auto mask = [&](size_t layer, int which) { return layer < c.layers ? image(layer).mask(which) : 0; };
            // (a skin of pieces that begin and pieces that end has a slit where they meet, which clipping may not survive)
            auto clear = [&](size_t layer, int which) { return ! layer || ! (mask(layer, which) & ~mask(layer - 1, which)) || ! (mask(layer - 1, which) & ~mask(layer, which)); };
            for (int m = 0; m < 2 && l < c.layers; m++)
                j.cellsOf(im, 1 << m, l ? mask(l, 1 << m) ^ mask(l - 1, 1 << m) : mask(l, 1 << m), clear(l, 1 << m), (int)l, c.depth, must[m], may[m]);
            if (c.avoid)
            {
                Pic all = im;
                if (l == c.layers)
                    all = Pic{ low.w, low.h, std::vector<char>(low.c.size(), 0) };
                j.cellsOf(all, 3, l ? mask(l, 3) ^ mask(l - 1, 3) : mask(l, 3), clear(l, 3), (int)l, c.avoid, airMust, airMay);
            }
        }
    }
    const bool thin = c.avoid && 2 * (std::max(c.wa, c.wb) * c.avoid + 5) >= c.pixel - c.gap;
    const i64 step = j.cw;
    size_t tied = 0, grown = 0;
    for (size_t l = 0; l < c.layers; l++)
    {
        const Pic& im = image(l);
        for (int i = -20; i < 20; i++)
            for (int jj = -20; jj < 20; jj++)
            {
                const Cell cell{ i, jj, (int)l / (2 * c.beam) };
                const bool sure = must[0].count(cell) && must[1].count(cell) && ! airMay.count(cell);
                const bool possible = may[0].count(cell) && may[1].count(cell) && ! airMust.count(cell);
                for (int a = 0; a < 4; a++)
                    for (int b = 0; b < 4; b++)
                    {
                        auto at = [&](int k) { return k < 2 ? c.wa * (k ? 0.77 : 0.23) : c.wa + c.wb * (k == 3 ? 0.77 : 0.23); };
                        double x, y;
                        j.f.back((double)i * step + at(a), (double)jj * step + at(b), x, y);
                        const double px = (x - ORIGIN.x) / c.pixel, py = (y - ORIGIN.y) / c.pixel;
                        if (px < -1 || py < -1 || px > im.w + 1 || py > im.h + 1)
                            continue;
                        if (std::min(std::abs(px - std::round(px)), std::abs(py - std::round(py))) * c.pixel < 30 + c.gap)
                            continue;
                        vh::trans();
                        const char is = im.at((int)std::floor(px), (int)std::floor(py));
                        const bool inA = inside(x, y, sl[0]->layers[l].polygons_), inB = inside(x, y, sl[1]->layers[l].polygons_);
                        const char* where = sure ? "tied" : possible ? "between" : "untied";
                        if (! is && (inA || inB))
                            return vh::fail("layer %zu: (%.0f, %.0f) was air and is of %s (%s)", l, x, y, inA ? "A" : "B", where);
                        if (is && ! inA && ! inB)
                            return vh::fail("layer %zu: (%.0f, %.0f) was of %s and is air (%s)", l, x, y, is == 1 ? "A" : "B", where);
                        bool both = inA && inB;
                        for (int t = 0; both && thin && t < 8; t++) // (gaps up to half a line wide between thickened pieces are closed by both)
                        {
                            const double X = x + 110 * std::cos(t * std::numbers::pi / 4), Y = y + 110 * std::sin(t * std::numbers::pi / 4);
                            both = inside(X, Y, sl[0]->layers[l].polygons_) && inside(X, Y, sl[1]->layers[l].polygons_);
                        }
                        if (both)
                            return vh::fail("layer %zu: (%.0f, %.0f) is of both models (%s)", l, x, y, where);
                        if (shell)
                        {
                            const double end = std::max(c.wa, c.wb) * c.avoid + 1000; // the ends of the block are left out
                            if (! is || std::min(py, im.h - py) * c.pixel < end || (im.w - px) * c.pixel < end || (im.w - std::abs(shell)) * c.pixel < 2 * end)
                                continue;
                            const double detect = (double)(std::max(c.wa, c.wb) * c.avoid + 5), expand = (double)(std::max(c.wa, c.wb) * (c.avoid - 1) + 5), T = (double)std::abs(shell) * c.pixel, X = px * c.pixel;
                            const bool inThin = shell > 0 ? inA : inB;
                            if (sure)
                            {
                                const bool along = ((int)l / c.beam) % 2;
                                if (((along ? b : a) < 2) != inA)
                                    return vh::fail("layer %zu: (%.0f, %.0f) is not of its beam (cell %d,%d)", l, x, y, i, jj);
                                tied++;
                            }
                            if (sure || possible)
                                continue;
                            bool nearSure = false, nearMaybe = false;
                            const double pu = i * (double)step + at(a), pv = jj * (double)step + at(b);
                            const int r = (int)(1.5 * detect / j.cw) + 2;
                            for (int dx = -r; dx <= r; dx++)
                                for (int dy = -r; dy <= r; dy++)
                                {
                                    const Cell o{ i + dx, jj + dy, (int)l / (2 * c.beam) };
                                    if (! (may[0].count(o) && may[1].count(o) && ! airMust.count(o)))
                                        continue;
                                    const double ex = std::max({ (i + dx) * (double)step - pu, pu - (i + dx + 1) * (double)step, 0.0 }), ey = std::max({ (jj + dy) * (double)step - pv, pv - (jj + dy + 1) * (double)step, 0.0 });
                                    nearMaybe |= std::max(ex, ey) < detect + 60;
                                    nearSure |= std::hypot(ex, ey) < detect - 40 && must[0].count(o) && must[1].count(o) && ! airMay.count(o);
                                }
                            const bool isThin = T < 2 * detect - 40, isThick = T > 2 * detect + 40;
                            if (isThin && nearSure && X < T + expand - 40 && X < detect + 300)
                            {
                                grown += X > T;
                                if (! inThin)
                                    return vh::fail("layer %zu: (%.0f, %.0f), %.0f deep, is not of the thin model thickened by %.0f beside the lattice", l, x, y, X, expand);
                            }
                            if ((isThick || ! nearMaybe || X > T + expand + 40) && inA != (is == 1))
                                return vh::fail("layer %zu: (%.0f, %.0f), %.0f deep, changed beyond the thickened thin piece", l, x, y, X);
                            continue;
                        }
                        if (! is || (thin && (sure || possible)))
                            continue;
                        if (thin)
                        { // thin pieces may be thickened around the lattice
                            bool near = false;
                            const int r = (int)((std::max(c.wa, c.wb) * c.avoid + 40) / j.cw) + 1;
                            for (int dx = -r; dx <= r; dx++)
                                for (int dy = -r; dy <= r; dy++)
                                {
                                    const Cell o{ i + dx, jj + dy, (int)l / (2 * c.beam) };
                                    near |= may[0].count(o) && may[1].count(o) && ! airMust.count(o);
                                }
                            if (near)
                                continue;
                        }
                        if (sure)
                        {
                            tied++;
                            const bool along = ((int)l / c.beam) % 2; // which way beams run
                            const bool wantA = (along ? b : a) < 2;
                            if (wantA != inA)
                                return vh::fail("layer %zu: (%.0f, %.0f), of %s, is not of the beam of %s (cell %d,%d)", l, x, y, is == 1 ? "A" : "B", wantA ? "A" : "B", i, jj);
                        }
                        else if (! possible && inA != (is == 1))
                            return vh::fail("layer %zu: (%.0f, %.0f), of %s, changed away from the interface", l, x, y, is == 1 ? "A" : "B");
                    }
            }
    }
    vh::outcome(200 + (tied != 0) + 2 * (grown != 0));
}
static bool fine(const Pic& im)
{
    return unambiguous(im.w, im.h, im.mask(1)) && unambiguous(im.w, im.h, im.mask(2)) && unambiguous(im.w, im.h, im.mask(3));
}
static Pic draw(int w, int h, uint64_t n)
{
    Pic r{ w, h, std::vector<char>(w * h) };
    for (auto& c : r.c)
        c = n % 3, n /= 3;
    return r;
}
static void explore()
{
    const bool th = vh::thorough();
    for (int cols : { 1, 2, 3 })
        for (int w : { 500, 700, 900, 1200 })
            for (int avoid : { 1, 2, 3 })
                for (int depth : { 3, 4, 5, 6 })
                    for (int turn : { 0, 22, 45 })
                        for (int pixel : { 1100, 1700, 3100 })
                            for (int other = 0; other < 2; other++)
                            {
                                if (! th && (cols + w / 100 + avoid + depth + turn + pixel / 100 + other) % 5)
                                    continue;
                                if (! vh::begin("shell of %d columns of %d, beams %d, avoid %d depth %d turn %d %s", cols, pixel, w, avoid, depth, turn, other ? "B" : "A"))
                                    continue;
                                Pic im{ 8, 8, std::vector<char>(64) };
                                for (int i = 0; i < 64; i++)
                                    im.c[i] = (i % 8 < cols) != (other != 0) ? 1 : 2;
                                run(im, im, Conf{ w, w + 100, 1, depth, avoid, (double)turn, pixel, 20, 20, 0 }, 0, other ? -cols : cols);
                            }
    const Conf confs[] = {
        { 700, 700, 1, 2, 0, 0, 3100, 8, 4, 0 },    { 800, 600, 2, 1, 0, 22.5, 3100, 8, 3, 0 },  { 700, 700, 1, 2, 1, 45, 3100, 8, 4, 60 }, { 900, 700, 2, 3, 2, 22.5, 5300, 16, 8, 0 },
        { 600, 900, 1, 2, 2, 30, 1700, 8, 4, 0 },   { 800, 800, 1, 4, 0, 10, 3100, 6, 5, 80 },   { 500, 1000, 3, 2, 1, 60, 3300, 12, 5, 0 }, { 1000, 500, 1, 3, 1, 22.5, 3100, 10, 6, 40 },
        { 800, 600, 2, 2, 3, 5, 6100, 14, 7, 0 },
    };
    for (size_t k = 0; k < std::size(confs); k++)
    {
        for (uint64_t n = 1; n < 729; n++)
        {
            if (! th && (n * 5 + k) % 2)
                continue;
            const Pic im = draw(3, 2, n);
            if (! im.mask(1) || ! im.mask(2) || ! fine(im))
                continue;
            if (vh::begin("wall 3x2 %llu with %zu", (unsigned long long)n, k))
                run(im, im, confs[k], 0);
            if (n % 9 == k && vh::begin("wall 3x2 %llu with %zu of one extruder", (unsigned long long)n, k))
                run(im, im, confs[k], 1);
            if (n % 9 == k && vh::begin("wall 3x2 %llu with %zu and an infill mesh", (unsigned long long)n, k))
                run(im, im, confs[k], 2);
        }
        for (uint64_t n = 0; n < 81; n++)
            for (uint64_t m = 0; m < 81; m++)
            {
                if (n == m || (! th && (n * 7 + m * 3 + k + n * m / 11) % 8))
                    continue;
                const Pic lo = draw(2, 2, n), hi = draw(2, 2, m);
                if (! ((lo.mask(1) | hi.mask(1)) && (lo.mask(2) | hi.mask(2))) || ! fine(lo) || ! fine(hi))
                    continue;
                if (vh::begin("stack 2x2 %llu under %llu with %zu", (unsigned long long)n, (unsigned long long)m, k))
                    run(lo, hi, confs[k], 0);
            }
    }
}
int main(int argc, char** argv)
{
    return vh::main_(argc, argv, explore, 8);
}
