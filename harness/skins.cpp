// Stacks of layers (drawn as images of cells) taken through the division into skin and infill (C28): skin against air above
// and below, roofing and flooring, surfaces, infill kept as support, gradual densities and combined layers.
// The oracle counts covered layers per cell; a place is judged at sample points clear of the borders of cells.
#include "ExtruderTrain.h"
#include "infill.h"
#include "mesh.h"
#include "settings/types/Angle.h"
#include "shapes.h"
#include "skin.h"
#include "sliceDataStorage.h"
#include "vh.h"
#include "world.h"

using namespace cura;
using namespace vs;

constexpr i64 WALL = 400; // what the walls take
constexpr i64 LW = 400; // skin line width

struct Grid
{
    std::vector<i64> xs, ys;
    int w, h;
    Complex c;
    Embed e; // cell frame to plane: a rotation by 3-4-5 or none
    Grid(std::vector<i64> x, std::vector<i64> y, int rot)
        : xs(x)
        , ys(y)
        , w((int)x.size() - 1)
        , h((int)y.size() - 1)
        , c(quads(w, h))
    {
        for (int j = 0; j <= h; j++)
            for (int i = 0; i <= w; i++)
                c.v[j * (w + 1) + i] = { xs[i] / (rot ? 5 : 1), ys[j] / (rot ? 5 : 1) };
        e = rot ? Embed{ 4, 3, -3, 4, 50000, 50000, "rot345" } : Embed{ 1, 0, 0, 1, 50000, 50000, "id" };
    }
    P at(P q) const // cell frame to plane
    {
        return { (i64)std::llround((e.a * (double)q.x + e.b * (double)q.y) / (e.a == 4 ? 5 : 1)) + e.tx, (i64)std::llround((e.c * (double)q.x + e.d * (double)q.y) / (e.a == 4 ? 5 : 1)) + e.ty };
    }
    int cell(P q) const
    {
        for (int j = 0; j < h; j++)
            for (int i = 0; i < w; i++)
                if (q.x > xs[i] && q.x < xs[i + 1] && q.y > ys[j] && q.y < ys[j + 1])
                    return j * w + i;
        return -1;
    }
    // does the open square meet one of the cells
    bool meets(double x0, double y0, double x1, double y1, unsigned mask) const
    {
        for (int j = 0; j < h; j++)
            for (int i = 0; i < w; i++)
                if (mask >> (j * w + i) & 1 && x0 < xs[i + 1] && x1 > xs[i] && y0 < ys[j + 1] && y1 > ys[j])
                    return true;
        return false;
    }
    // distance (Chebyshev) of p to the nearest cell of the mask
    double cheb(P p, unsigned mask) const
    {
        double d = 1e9;
        for (int j = 0; j < h; j++)
            for (int i = 0; i < w; i++)
                if (mask >> (j * w + i) & 1)
                    d = std::min(d, std::max({ (double)(xs[i] - p.x), (double)(p.x - xs[i + 1]), (double)(ys[j] - p.y), (double)(p.y - ys[j + 1]), 0.0 }));
        return d;
    }
    double eucl(P p, unsigned mask) const
    {
        double d = 1e9;
        for (int j = 0; j < h; j++)
            for (int i = 0; i < w; i++)
                if (mask >> (j * w + i) & 1)
                {
                    const double dx = std::max({ (double)(xs[i] - p.x), (double)(p.x - xs[i + 1]), 0.0 }), dy = std::max({ (double)(ys[j] - p.y), (double)(p.y - ys[j + 1]), 0.0 });
                    d = std::min(d, std::sqrt(dx * dx + dy * dy));
                }
        return d;
    }
    i64 area(unsigned mask) const
    {
        i64 s = 0;
        for (int j = 0; j < h; j++)
            for (int i = 0; i < w; i++)
                if (mask >> (j * w + i) & 1)
                    s += (xs[i + 1] - xs[i]) * (ys[j + 1] - ys[j]);
        return s;
    }
    bool wide(int c, i64 d) const
    {
        return xs[c % w + 1] - xs[c % w] > d && ys[c / w + 1] - ys[c / w] > d;
    }
    unsigned component(unsigned mask, int cell) const // edge-connected
    {
        unsigned r = 1u << cell, prev = 0;
        while (r != prev)
        {
            prev = r;
            for (int j = 0; j < h; j++)
                for (int i = 0; i < w; i++)
                    if (r >> (j * w + i) & 1)
                        for (auto [dx, dy] : { std::pair{ 1, 0 }, { -1, 0 }, { 0, 1 }, { 0, -1 } })
                        {
                            const int x = i + dx, y = j + dy;
                            if (x >= 0 && y >= 0 && x < w && y < h && (mask >> (y * w + x) & 1))
                                r |= 1u << (y * w + x);
                        }
        }
        return r;
    }
};

struct Sample
{
    P q, p; // in the cell frame and in the plane
    int cell;
};
static std::vector<Sample> samples(const Grid& g, const std::vector<i64>& off)
{
    std::vector<Sample> r;
    auto axis = [&](const std::vector<i64>& v)
    {
        std::vector<i64> o;
        for (size_t i = 0; i + 1 < v.size(); i++)
        {
            const i64 W = v[i + 1] - v[i];
            for (i64 a : off)
                if (2 * a < W)
                {
                    o.push_back(v[i] + a);
                    o.push_back(v[i + 1] - a);
                }
            o.push_back(v[i] + W / 2 + 3);
        }
        std::sort(o.begin(), o.end());
        o.erase(std::unique(o.begin(), o.end()), o.end());
        return o;
    };
    for (i64 x : axis(g.xs))
        for (i64 y : axis(g.ys))
        {
            const P q{ x, y };
            const int c = g.cell(q);
            if (c >= 0)
                r.push_back({ q, g.at(q), c });
        }
    return r;
}
struct Area
{
    Paths ps;
    Area() = default;
    Area(const Shape& s)
        : ps(fromShape(s))
    {
    }
    bool has(P p) const
    {
        return evenOdd(p, ps);
    }
    double dist(P p) const
    {
        return distBorder(p, ps);
    }
    double to(P p) const
    {
        return has(p) ? 0 : dist(p);
    }
    double depth(P p) const
    {
        return has(p) ? dist(p) : 0;
    }
};

struct Conf
{
    const char* name;
    int top = 2, bottom = 2, initial_bottom = 1;
    bool no_gaps = false, infill = true;
    double min_infill = 0; // mm2
    i64 top_expand = 0, bottom_expand = 0, top_shrink = 0, bottom_shrink = 0, min_width_expand = 0;
    int roofing = 0, flooring = 0;
    i64 overlap = 0, roofing_expansion = 0, merge = 0;
};
struct Rig
{
    std::unique_ptr<Mesh> mesh;
    std::unique_ptr<SliceMeshStorage> st;
    std::vector<unsigned> masks;
    Scene* scene = nullptr;
    void start(const std::vector<std::pair<std::string, std::string>>& kv)
    {
        st.reset();
        mesh.reset();
        scene = &world::fresh(1, 1);
        scene->mesh_groups[0].settings.setParent(&scene->settings);
        mesh = std::make_unique<Mesh>(scene->mesh_groups[0].settings);
        for (auto& [k, v] : kv)
            mesh->settings_.add(k, v);
    }
    void conf(const Conf& f)
    {
        auto mm = [](i64 v) { return std::to_string(v / 1000.0); };
        start({ { "top_layers", std::to_string(f.top) },
                { "bottom_layers", std::to_string(f.bottom) },
                { "initial_bottom_layers", std::to_string(f.initial_bottom) },
                { "skin_no_small_gaps_heuristic", f.no_gaps ? "true" : "false" },
                { "min_infill_area", std::to_string(f.min_infill) },
                { "top_skin_expand_distance", mm(f.top_expand) },
                { "bottom_skin_expand_distance", mm(f.bottom_expand) },
                { "top_skin_preshrink", mm(f.top_shrink) },
                { "bottom_skin_preshrink", mm(f.bottom_shrink) },
                { "min_skin_width_for_expansion", mm(f.min_width_expand) },
                { "roofing_layer_count", std::to_string(f.roofing) },
                { "flooring_layer_count", std::to_string(f.flooring) },
                { "skin_overlap_mm", mm(f.overlap) },
                { "roofing_expansion", mm(f.roofing_expansion) },
                { "top_bottom_skin_merge_distance", mm(f.merge) },
                { "skin_line_width", mm(LW) },
                { "line_width", "0.4" },
                { "roofing_line_width", f.roofing ? "0.35" : "0.4" },
                { "flooring_line_width", f.flooring ? "0.35" : "0.4" },
                { "initial_layer_line_width_factor", "100" } });
        scene->settings.add("initial_layer_line_width_factor", "100");
    }
    void stack(const Grid& g, const std::vector<unsigned>& m)
    {
        masks = m;
        st = std::make_unique<SliceMeshStorage>(mesh.get(), m.size());
        for (size_t l = 0; l < m.size(); l++)
        {
            const Shape s = toShape(trace(g.c, m[l], g.e, 0));
            for (const SingleShape& ss : s.splitIntoParts())
            {
                SliceLayerPart& part = st->layers[l].parts.emplace_back();
                part.outline = ss;
                part.print_outline = ss;
                part.boundaryBox.calculate(part.outline);
                part.inner_area = ss.offset(-WALL);
            }
        }
    }
    // the cells of one part (by its outline)
    unsigned cells(const Grid& g, const SliceLayerPart& part) const
    {
        return (unsigned)cover(g.c, fromShape(part.outline), g.e);
    }
};
static Rig R;

static std::string name(const Conf& f, const std::vector<unsigned>& m)
{
    std::string s = std::string("settings '") + f.name + "', layers";
    for (unsigned x : m)
        s += " " + std::to_string(x);
    return s;
}
static std::string at(P p)
{
    return "(" + std::to_string(p.x) + "," + std::to_string(p.y) + ")";
}
// cells covered in every layer that counts
static unsigned covered(const std::vector<unsigned>& m, int from, int to, bool only_last, int last)
{
    unsigned r = ~0u;
    for (int l = from; l <= to; l++)
        if (! only_last || l == last)
            r &= l < 0 || l >= (int)m.size() ? 0 : m[l];
    return r;
}

static bool skinsOf(const Grid& g, const Conf& f, const std::vector<Sample>& pts)
{
    const std::vector<unsigned>& m = R.masks;
    const int L = (int)m.size();
    for (int l = 0; l < L; l++)
    {
        SkinInfillAreaComputation sk(l, *R.st, f.infill);
        sk.generateSkinsAndInfill();
    }
    uint64_t h = 1;
    for (int l = 0; l < L; l++)
    {
        for (size_t pi = 0; pi < R.st->layers[l].parts.size(); pi++)
        {
            const SliceLayerPart& part = R.st->layers[l].parts[pi];
            const unsigned own = R.cells(g, part);
            // raw skin in cells
            unsigned top_fill = ~0u, bottom_fill = ~0u;
            if (f.top > 0)
                top_fill = covered(m, l + 1, l + f.top, f.no_gaps, l + f.top);
            if (l < f.initial_bottom)
                bottom_fill = 0;
            else if (f.bottom > 0)
            {
                const int from = std::max(0, l - f.bottom);
                bottom_fill = covered(m, from, l - 1, f.no_gaps, from);
                if (l == 0) // nothing below the first layer counts as air unless it is asked for
                    bottom_fill = m[0];
            }
            if (f.min_infill > 0)
                for (unsigned* x : { &top_fill, &bottom_fill })
                    if (*x != ~0u)
                    {
                        unsigned keep = 0;
                        for (int c = 0; c < g.w * g.h; c++)
                            if (*x >> c & 1 && g.area(g.component(*x, c)) >= f.min_infill * 1e6)
                                keep |= 1u << c;
                        *x = keep;
                    }
            const unsigned top_raw = own & ~top_fill, bottom_raw = own & ~bottom_fill, raw = top_raw | bottom_raw;
            // expansion and shrinking only ever apply to these
            const Area outline(part.outline), inner(part.inner_area), infill(part.infill_area), top_surf(part.top_most_surface), bottom_surf(part.bottom_most_surface);
            std::vector<Area> skin, fill, roof, floor;
            for (auto& s : part.skin_parts)
            {
                skin.emplace_back(s.outline);
                fill.emplace_back(s.skin_fill);
                roof.emplace_back(s.roofing_fill);
                floor.emplace_back(s.flooring_fill);
                h = vh::mix(h, hashPaths(skin.back().ps));
                h = vh::mix(h, hashPaths(roof.back().ps));
                h = vh::mix(h, hashPaths(floor.back().ps));
            }
            h = vh::mix(h, hashPaths(infill.ps));
            for (const Sample& s : pts)
            {
                if (! (own >> s.cell & 1))
                    continue;
                const double edge = inner.dist(s.p);
                if (edge < 12)
                    continue;
                int nskin = 0, sp = -1;
                for (size_t i = 0; i < skin.size(); i++)
                    if (skin[i].has(s.p))
                    {
                        nskin++;
                        sp = (int)i;
                    }
                const bool inf = infill.has(s.p), is = nskin > 0;
                auto say = [&](const char* what)
                { vh::fail("%s, layer %d place %s (cell %d): %s [skin %d, infill %d; top cells %u, bottom cells %u]", name(f, m).c_str(), l, at(s.p).c_str(), s.cell, what, nskin, inf, top_raw, bottom_raw); };
                if (! inner.has(s.p))
                {
                    if (is || inf)
                        return say("skin or infill where the walls are"), false;
                    continue;
                }
                if (nskin > 1)
                    return say("two skin parts overlap"), false;
                if (f.infill || f.top || f.bottom)
                {
                    double border = 1e9;
                    for (auto& a : skin)
                        border = std::min(border, a.dist(s.p));
                    border = std::min(border, infill.dist(s.p));
                    if (border > 12 && is == inf)
                        return say(is ? "both skin and infill" : "neither skin nor infill"), false;
                    // must it be skin?
                    bool must = false, may = false;
                    for (int t = 0; t < 2; t++)
                    {
                        const unsigned rw = t ? bottom_raw : top_raw;
                        const i64 ex = t ? f.bottom_expand : f.top_expand, sh = t ? f.bottom_shrink : f.top_shrink;
                        if (! rw)
                            continue;
                        const double ch = g.cheb(s.q, rw), eu = g.eucl(s.q, rw);
                        const i64 mw = f.min_width_expand;
                        // depth inside the raw skin, within the walls
                        const double in_depth = rw >> s.cell & 1 ? std::min({ g.cheb(s.q, own & ~rw), edge }) : 0;
                        if (sh == 0 ? (rw >> s.cell & 1) : in_depth > sh * 0.75 + 20)
                            must = true;
                        if (ex > 0 && sh == 0 && eu < ex - 12)
                        {
                            // the skin it grows from lies inside the walls: measure from a point well inside
                            for (const Sample& o : pts)
                                if (rw >> o.cell & 1 && (mw == 0 || g.wide(o.cell, mw + 2 * WALL)) && inner.has(o.p) && std::hypot((double)(o.p.x - s.p.x), (double)(o.p.y - s.p.y)) < ex - 12)
                                {
                                    must = true;
                                    break;
                                }
                        }
                        if (ch < std::max<double>(ex, 0) + 12)
                            may = true;
                    }
                    // gaps between skins narrower than four lines are filled
                    bool gap = false;
                    if (! may)
                    {
                        const double grow = std::max<double>({ 0.0, (double)f.top_expand, (double)f.bottom_expand }), side = 4 * LW + 2 * 12;
                        const unsigned any = raw;
                        bool free = false;
                        for (int a = 0; a <= 8 && ! free; a++)
                            for (int b = 0; b <= 8 && ! free; b++)
                            {
                                const double x0 = s.q.x - side * a / 8, y0 = s.q.y - side * b / 8;
                                free = ! g.meets(x0 - grow, y0 - grow, x0 + side + grow, y0 + side + grow, any);
                            }
                        gap = ! free;
                    }
                    if (must && ! is && border > 12)
                        return say("near open air, but not skin"), false;
                    if (is && ! may && ! gap && border > 12)
                        return say("skin, but covered on all sides"), false;
                    // thin cells with skin on both sides
                    if (! must && is == false && f.top_shrink == 0 && f.bottom_shrink == 0 && g.w == 3 && g.h == 1 && s.cell == 1 && (raw & 5) == 5 && edge > 300 && g.xs[2] - g.xs[1] < 4 * LW - 100
                        && s.q.y > g.ys[0] + 2 * LW + WALL && s.q.y < g.ys[1] - 2 * LW - WALL)
                        return say("a narrow gap between skins was not filled"), false;
                    // roofing, flooring, skin
                    if (is)
                    {
                        const int rc = std::min(f.roofing, f.top), fc = std::min(f.flooring, f.bottom);
                        unsigned above = rc ? covered(m, l + 1, l + rc, f.no_gaps, l + rc) : ~0u;
                        const unsigned air_below = l > 0 ? ~m[l - 1] : 0;
                        const unsigned below = fc && l >= fc ? covered(m, l - fc, l - 1, f.no_gaps, l - fc) : ~0u;
                        const unsigned fl = own & ~below, ro = rc ? own & below & ~(above | air_below) : 0, fi = own & ~fl & ~ro;
                        const Area &F = fill[sp], &Ro = roof[sp], &Fl = floor[sp];
                        const bool isF = F.has(s.p), isR = Ro.has(s.p), isL = Fl.has(s.p);
                        const double b3 = std::min({ F.dist(s.p), Ro.dist(s.p), Fl.dist(s.p) });
                        if (b3 > 12)
                        {
                            const i64 reach = f.overlap + f.roofing_expansion + f.merge;
                            const bool clear = reach == 0;
                            auto near = [&](unsigned cells) { return g.cheb(s.q, cells) <= reach * 1.0 + 12; };
                            if (! isF && ! isR && ! isL)
                                return say("skin that is neither roofing nor flooring nor plain"), false;
                            if (isR && isL)
                                return say("both roofing and flooring"), false;
                            if (isF && (isR || isL) && ! (f.overlap && near(fi) && near(ro | fl)))
                                return say("both plain skin and roofing or flooring"), false;
                            if (isR && ! near(ro))
                                return say("roofing away from the topmost surfaces"), false;
                            if (isL && ! near(fl))
                                return say("flooring away from the bottom surfaces"), false;
                            if (isF && ! near(fi))
                                return say("plain skin on top or bottom surfaces"), false;
                            if (clear && ! (ro >> s.cell & 1 ? isR : fl >> s.cell & 1 ? isL : isF))
                                return say("wrong kind of skin"), false;
                            if (f.roofing_expansion && ! f.overlap && ! f.merge)
                            {
                                // roofing grows over plain skin (within the same skin part)
                                bool grown = false;
                                for (const Sample& o : pts)
                                    if (ro >> o.cell & 1 && skin[sp].has(o.p) && std::hypot((double)(o.p.x - s.p.x), (double)(o.p.y - s.p.y)) < f.roofing_expansion - 12)
                                        grown = true;
                                if (grown && fi >> s.cell & 1 && ! isR)
                                    return say("roofing was not extended over the skin beside it"), false;
                                if (isR && fl >> s.cell & 1)
                                    return say("roofing was extended over air"), false;
                            }
                            if (f.merge && g.w == 3 && s.cell == 1 && (ro == 2 || fl == 2) && g.xs[2] - g.xs[1] < f.merge - 100 && edge > 300)
                            {
                                // a thin surface beside plain skin is printed with it
                                for (const Sample& o : pts)
                                    if (fi >> o.cell & 1 && skin[sp].has(o.p) && std::hypot((double)(o.p.x - s.p.x), (double)(o.p.y - s.p.y)) < f.merge - 400 && ! isF)
                                        return say("a thin surface was not merged with the skin beside it"), false;
                            }
                            if (f.overlap && ! f.merge && ! f.roofing_expansion)
                            {
                                if (ro >> s.cell & 1 && ! isR)
                                    return say("topmost surface lost"), false;
                                if (fl >> s.cell & 1 && ! isL && ! isR)
                                    return say("bottom surface lost"), false;
                                if (isF && ! (fi >> s.cell & 1))
                                    return say("plain skin over topmost or bottom surfaces"), false;
                                if (fi >> s.cell & 1 && ! isF && ! near(ro) && ! near(fl))
                                    return say("plain skin lost"), false;
                            }
                        }
                    }
                }
            }
            // what overlaps the walls
            if (f.overlap && ! f.merge)
                for (const Sample& s : pts)
                {
                    if (! (own >> s.cell & 1) || inner.has(s.p) || inner.dist(s.p) < 12)
                        continue;
                    double d = 1e9, b = 1e9;
                    bool in = false;
                    for (size_t i = 0; i < skin.size(); i++)
                    {
                        d = std::min(d, skin[i].to(s.p));
                        for (auto* a : { &fill[i], &roof[i], &floor[i] })
                        {
                            in |= a->has(s.p);
                            b = std::min(b, a->dist(s.p));
                        }
                    }
                    if (b > 12 && ((in && d > f.overlap * 1.5 + 12) || (! in && d < f.overlap - 12)))
                    {
                        vh::fail("%s, layer %d place %s: %.0f from the skin, %s the skin's overlap with the walls of %lld", name(f, m).c_str(), l, at(s.p).c_str(), d, in ? "reached by" : "not reached by", f.overlap);
                        return false;
                    }
                }
            // surfaces
            for (const Sample& s : pts)
            {
                if (! (own >> s.cell & 1))
                    continue;
                if (std::min({ top_surf.dist(s.p), bottom_surf.dist(s.p), outline.dist(s.p) }) < 12)
                    continue;
                const bool t = top_surf.has(s.p), b = bottom_surf.has(s.p);
                const bool et = l + 1 >= L || ! (m[l + 1] >> s.cell & 1), eb = l == 0 || ! (m[l - 1] >> s.cell & 1);
                if (t != et || b != eb)
                {
                    vh::fail("%s, layer %d place %s (cell %d): %s surface %s", name(f, m).c_str(), l, at(s.p).c_str(), s.cell, t != et ? "topmost" : "bottommost", (t != et ? et : eb) ? "missing" : "where there is material");
                    return false;
                }
            }
        }
    }
    vh::outcome(h);
    vh::state(vh::mix(vh::hash(m.data(), m.size() * 4), vh::mix(vh::hash(f.name, strlen(f.name)), g.e.a * 16 + g.w)));
    vh::trans(L);
    return true;
}

// ---- keys that make roofing or flooring differ from skin
static void kinds(int part)
{
    static const std::vector<std::pair<std::string, std::string>> roof = { { "roofing_line_width", "0.35" }, { "wall_0_material_flow_roofing", "90" }, { "wall_x_material_flow_roofing", "90" }, { "roofing_material_flow", "90" },
        { "speed_wall_0_roofing", "7" }, { "speed_wall_x_roofing", "7" }, { "speed_roofing", "7" }, { "acceleration_wall_0_roofing", "7" }, { "acceleration_wall_x_roofing", "7" }, { "acceleration_roofing", "7" },
        { "jerk_wall_0_roofing", "7" }, { "jerk_wall_x_roofing", "7" }, { "jerk_roofing", "7" }, { "roofing_pattern", "concentric" }, { "roofing_monotonic", "" }, { "roofing_angles", "[0,90]" }, { "roofing_angles", "[45]" },
        { "material_delta_temperature_roofing", "5" }, { "material_delta_temperature_roofing", "-5" }, { "roofing_extruder_nr", "1" } };
    static const std::vector<std::pair<std::string, std::string>> floor = { { "flooring_line_width", "0.35" }, { "wall_0_material_flow_flooring", "90" }, { "wall_x_material_flow_flooring", "90" }, { "flooring_material_flow", "90" },
        { "speed_wall_0_flooring", "7" }, { "speed_wall_x_flooring", "7" }, { "speed_flooring", "7" }, { "acceleration_wall_0_flooring", "7" }, { "acceleration_wall_x_flooring", "7" }, { "acceleration_flooring", "7" },
        { "jerk_wall_0_flooring", "7" }, { "jerk_wall_x_flooring", "7" }, { "jerk_flooring", "7" }, { "flooring_pattern", "concentric" }, { "flooring_monotonic", "" }, { "flooring_angles", "[0,90]" }, { "flooring_angles", "[45]" },
        { "flooring_extruder_nr", "1" } };
    const auto& keys = part ? floor : roof;
    const Grid g({ 0, 6000, 12000 }, { 0, 6000 }, 0);
    for (size_t k = 0; k <= keys.size(); k++)
    {
        Conf f{ .name = "kinds", .top = 2, .bottom = 2 };
        R.conf(f);
        auto set = [&](const std::string& key, const std::string& v) { R.mesh->settings_.add(key, v); };
        // everything the same for the three kinds
        for (const char* suf : { "_roofing", "_flooring" })
        {
            for (const char* w : { "0", "x" })
            {
                set(std::string("wall_") + w + "_material_flow" + suf, "100");
                set(std::string("wall_") + w + "_material_flow", "100");
                set(std::string("speed_wall_") + w + suf, "40");
                set(std::string("speed_wall_") + w, "40");
                set(std::string("acceleration_wall_") + w + suf, "400");
                set(std::string("acceleration_wall_") + w, "400");
                set(std::string("jerk_wall_") + w + suf, "4");
                set(std::string("jerk_wall_") + w, "4");
            }
            const std::string p = suf + 1;
            set(std::string("speed") + suf, "30");
            set(std::string("acceleration") + suf, "300");
            set(std::string("jerk") + suf, "3");
            set(p + "_material_flow", "100");
            set(p + "_line_width", "0.4");
            set(p + "_pattern", "lines");
            set(p + "_monotonic", "false");
            set(p + "_angles", "[45,135]");
            set(p + "_extruder_nr", "-1");
            set(p + "_layer_count", "1");
        }
        set("material_delta_temperature_roofing", "0");
        set("speed_topbottom", "30");
        set("acceleration_topbottom", "300");
        set("jerk_topbottom", "3");
        set("skin_material_flow", "100");
        set("line_width", "0.4");
        set("top_bottom_pattern", "lines");
        set("skin_monotonic", "false");
        set("skin_angles", "[45,135]");
        set("extruder_nr", "0");
        if (k < keys.size())
            set(keys[k].first, keys[k].second.empty() ? "true" : keys[k].second);
        R.stack(g, { 1, 3, 3, 3, 1 });
        bool roofs = false, floors = false;
        for (int l = 0; l < 5; l++)
        {
            SkinInfillAreaComputation sk(l, *R.st, true);
            sk.generateSkinsAndInfill();
            for (auto& p : R.st->layers[l].parts)
                for (auto& s : p.skin_parts)
                {
                    roofs |= ! s.roofing_fill.empty();
                    floors |= ! s.flooring_fill.empty();
                }
        }
        const bool er = ! part && k < keys.size(), ef = part && k < keys.size();
        VH_CHECK(roofs == er, "%s: roofing %s", k < keys.size() ? keys[k].first.c_str() : "nothing differs", er ? "is missing though it is printed differently" : "is set apart though nothing differs");
        VH_CHECK(floors == ef, "%s: flooring %s", k < keys.size() ? keys[k].first.c_str() : "nothing differs", ef ? "is missing though it is printed differently" : "is set apart though nothing differs");
        vh::state(part * 100 + k);
    }
}

// ---- infill kept as support, densities, combined layers
struct IConf
{
    const char* name;
    bool support = false;
    double angle = 40; // of support
    int steps = 0;
    double step_height = 0.4;
    bool connected = false, no_gaps = false;
    double thickness = 0.2;
    int top = 1, bottom = 1;
};
static bool infills(const Grid& g, const IConf& f, const std::vector<unsigned>& m, const std::vector<Sample>& pts)
{
    R.stack(g, m);
    const int L = (int)m.size();
    auto nm = [&]
    {
        std::string s = std::string("settings '") + f.name + "', layers";
        for (unsigned x : m)
            s += " " + std::to_string(x);
        return s;
    };
    for (int l = 0; l < L; l++)
        SkinInfillAreaComputation(l, *R.st, true).generateSkinsAndInfill();
    struct Where
    {
        std::vector<std::pair<Area, int>> parts; // infill, part
    };
    // infill before
    std::vector<std::vector<Area>> infill(L), own(L);
    for (int l = 0; l < L; l++)
        for (auto& p : R.st->layers[l].parts)
            infill[l].emplace_back(p.infill_area);
    auto any = [](const std::vector<Area>& v, P p)
    {
        for (auto& a : v)
            if (a.has(p))
                return true;
        return false;
    };
    auto clear = [](const std::vector<Area>& v, P p)
    {
        double d = 1e9;
        for (auto& a : v)
            d = std::min(d, a.dist(p));
        return d;
    };
    if (f.support)
        SkinInfillAreaComputation::generateInfillSupport(*R.st);
    for (int l = 0; l < L; l++)
        for (auto& p : R.st->layers[l].parts)
        {
            VH_CHECK(hashPaths(fromShape(p.infill_area)) == hashPaths(infill[l][&p - &R.st->layers[l].parts[0]].ps), "%s: layer %d: the infill area itself was changed", nm().c_str(), l);
            own[l].emplace_back(p.getOwnInfillArea());
        }
    if (f.support)
    {
        const double reach = (std::tan(f.angle * M_PI / 180) - 0.01) * 200;
        for (int l = L - 1; l >= 0; l--)
            for (const Sample& s : pts)
            {
                const bool in = any(infill[l], s.p), o = any(own[l], s.p);
                if (std::min(clear(infill[l], s.p), clear(own[l], s.p)) < 12)
                    continue;
                if (o && ! in)
                    return vh::fail("%s: layer %d place %s: infill outside the infill area", nm().c_str(), l, at(s.p).c_str()), false;
                if (! in)
                    continue;
                if (l == L - 1)
                {
                    if (! o)
                        return vh::fail("%s: layer %d place %s: infill lost on the top layer", nm().c_str(), l, at(s.p).c_str()), false;
                    continue;
                }
                if (std::min(clear(infill[l + 1], s.p), clear(own[l + 1], s.p)) < 12)
                    continue;
                if (any(own[l + 1], s.p))
                {
                    if (! o)
                        return vh::fail("%s: layer %d place %s: no infill below infill", nm().c_str(), l, at(s.p).c_str()), false;
                    continue;
                }
                // something else than infill above: a roof to hold up, as far as the infill here doesn't end close by
                double depth = 0;
                for (auto& a : infill[l])
                    depth = std::max(depth, a.depth(s.p));
                const bool roof = ! any(infill[l + 1], s.p);
                double lower = 1e9; // to an unsupported roof: seen from the sample points
                for (const Sample& q : pts)
                {
                    double dq = 0;
                    for (auto& a : infill[l])
                        dq = std::max(dq, a.depth(q.p));
                    if (dq > reach - 12 && ! any(infill[l + 1], q.p))
                        lower = std::min(lower, std::hypot((double)(q.p.x - s.p.x), (double)(q.p.y - s.p.y)));
                }
                if (roof && depth > reach + 12 && ! o)
                    return vh::fail("%s: layer %d place %s: a roof %.0f from the walls has no infill below it", nm().c_str(), l, at(s.p).c_str(), depth), false;
                if (o && (! roof || lower > (reach + 50) * 1.5 + 800))
                    return vh::fail("%s: layer %d place %s: infill that holds up nothing", nm().c_str(), l, at(s.p).c_str()), false;
            }
    }
    SkinInfillAreaComputation::generateGradualInfill(*R.st);
    const int step = std::max(0, (int)std::lround(f.step_height / 0.2));
    const int skip_base = f.no_gaps ? 8 : 1;
    std::vector<std::vector<std::vector<Area>>> dens(L); // layer, part, density
    for (int l = 0; l < L; l++)
        for (size_t pi = 0; pi < R.st->layers[l].parts.size(); pi++)
        {
            auto& part = R.st->layers[l].parts[pi];
            auto& d = dens[l].emplace_back();
            VH_CHECK(! part.infill_area_per_combine_per_density.empty(), "%s: layer %d: no densities", nm().c_str(), l);
            for (auto& c : part.infill_area_per_combine_per_density)
            {
                VH_CHECK(c.size() == 1, "%s: layer %d: %zu thicknesses before layers are combined", nm().c_str(), l, c.size());
                d.emplace_back(c.empty() ? Shape() : c[0]);
            }
            const bool solid_layer = l < 1 /* initial bottom */ || l > L - 1 - f.top;
            // how many full steps each place has infill above it
            auto persists = [&](P p, int k, double& border)
            {
                for (int j = 0; j < k; j++)
                {
                    double skip = skip_base;
                    const double n = std::max(1.0, std::ceil(step / skip));
                    skip = step / n;
                    for (double u = l + j * step + (int)skip; u <= l + (j + 1) * step; u += skip)
                    {
                        if (u >= L)
                            return false;
                        border = std::min(border, clear(own[(int)u], p));
                        if (! any(own[(int)u], p))
                            return false;
                    }
                }
                return true;
            };
            size_t most = 0;
            for (const Sample& s : pts)
                if (own[l][pi].has(s.p) && ! solid_layer)
                    for (int k = 1; k <= f.steps; k++)
                    {
                        double b = 1e9;
                        if (persists(s.p, k, b) && b > 12)
                            most = std::max(most, (size_t)k);
                    }
            VH_CHECK(d.size() >= most + 1 && (solid_layer || d.size() <= (size_t)f.steps + 1), "%s: layer %d: %zu densities, %zu expected", nm().c_str(), l, d.size(), most + 1);
            for (const Sample& s : pts)
            {
                if (clear(d, s.p) < 12 || own[l][pi].dist(s.p) < 12)
                    continue;
                const bool in = own[l][pi].has(s.p) && ! solid_layer;
                bool seen = false;
                for (size_t k = 0; k < d.size(); k++)
                {
                    const bool has = d[k].has(s.p);
                    double b = 1e9;
                    bool expect;
                    if (k + 1 < d.size())
                        expect = in && ! persists(s.p, (int)k + 1, b) && ! (f.connected && seen);
                    else
                        expect = in && ! (f.connected && seen);
                    if (b > 12 && has != expect)
                        return vh::fail("%s: layer %d place %s: %s at density %zu of %zu", nm().c_str(), l, at(s.p).c_str(), has ? "infill" : "no infill", k, d.size()), false;
                    seen |= has;
                }
                if (seen != in)
                    return vh::fail("%s: layer %d place %s: infill %s", nm().c_str(), l, at(s.p).c_str(), in ? "lost" : "added"), false;
            }
        }
    SkinInfillAreaComputation::combineInfillLayers(*R.st);
    const int amount = std::max(1, (int)std::lround(f.thickness / 0.2));
    const int first = 1 + amount - 1 - (1 + amount - 1) % amount, last_raw = L - 1 - f.top, last = last_raw < 0 ? -1 : last_raw - last_raw % amount;
    uint64_t h = 1;
    std::vector<std::vector<std::vector<std::vector<Area>>>> comb(L);
    for (int l = 0; l < L; l++)
        for (auto& part : R.st->layers[l].parts)
        {
            auto& d = comb[l].emplace_back();
            for (auto& c : part.infill_area_per_combine_per_density)
            {
                auto& v = d.emplace_back();
                for (auto& a : c)
                {
                    v.emplace_back(a);
                    h = vh::mix(h, hashPaths(v.back().ps));
                }
            }
        }
    for (const Sample& s : pts)
    {
        int want = 0, have = 0;
        std::vector<int> t(L, 0), in(L, 0);
        double border = 1e9;
        for (int l = 0; l < L; l++)
        {
            border = std::min(border, clear(own[l], s.p));
            for (auto& p : dens[l])
                border = std::min(border, clear(p, s.p));
            for (auto& p : comb[l])
                for (auto& d : p)
                    border = std::min(border, clear(d, s.p));
        }
        if (border < 12)
            continue;
        for (int l = 0; l < L; l++)
        {
            for (auto& p : dens[l])
                for (auto& d : p)
                    in[l] += d.has(s.p);
            for (auto& p : comb[l])
                for (auto& d : p)
                    for (size_t c = 0; c < d.size(); c++)
                        if (d[c].has(s.p))
                            t[l] += (int)c + 1;
            want += in[l];
            have += t[l];
        }
        if (f.steps == 0)
        {
            if (want != have)
                return vh::fail("%s: place %s: infill of %d layers became %d layers of material", nm().c_str(), at(s.p).c_str(), want, have), false;
            // a combined layer reaches down over layers that gave theirs
            for (int l = 0; l < L; l++)
            {
                const bool comb_here = amount > 1 && l >= first && l <= last && l % amount == 0;
                if (t[l] > 1 && ! comb_here)
                    return vh::fail("%s: layer %d place %s: %d layers thick between combined layers", nm().c_str(), l, at(s.p).c_str(), t[l]), false;
                if (comb_here)
                {
                    int run = 0;
                    while (run < amount && l - run >= first && in[l - run])
                        run++;
                    if (t[l] != run)
                        return vh::fail("%s: layer %d place %s: %d layers thick, %d expected", nm().c_str(), l, at(s.p).c_str(), t[l], run), false;
                    for (int j = 1; j < run; j++)
                        if (t[l - j] != 0)
                            return vh::fail("%s: layer %d place %s: printed though the layer above prints it too", nm().c_str(), l - j, at(s.p).c_str()), false;
                }
            }
        }
        else if (have < want - 0 && f.connected)
            return vh::fail("%s: place %s: infill of %d layers became %d layers of material", nm().c_str(), at(s.p).c_str(), want, have), false;
    }
    vh::outcome(h);
    vh::state(vh::mix(vh::hash(m.data(), m.size() * 4), vh::mix(vh::hash(f.name, strlen(f.name)), 77)));
    vh::trans(L);
    return true;
}

static std::vector<Conf> confs()
{
    return {
        { .name = "2/2", .top = 2, .bottom = 2 },
        { .name = "1/1", .top = 1, .bottom = 1 },
        { .name = "1/2 initial 2", .top = 1, .bottom = 2, .initial_bottom = 2 },
        { .name = "2/1 initial 0", .top = 2, .bottom = 1, .initial_bottom = 0 },
        { .name = "0/1", .top = 0, .bottom = 1 },
        { .name = "1/0 initial 0", .top = 1, .bottom = 0, .initial_bottom = 0 },
        { .name = "1/0 initial 2", .top = 1, .bottom = 0, .initial_bottom = 2 },
        { .name = "0/0", .top = 0, .bottom = 0, .initial_bottom = 0 },
        { .name = "3/3", .top = 3, .bottom = 3 },
        { .name = "9/9", .top = 9, .bottom = 9 },
        { .name = "2/2 no small gaps", .top = 2, .bottom = 2, .no_gaps = true },
        { .name = "2/2 no infill", .top = 2, .bottom = 2, .infill = false },
        { .name = "1/1 min area", .top = 1, .bottom = 1, .min_infill = 12 },
        { .name = "1/2 expand", .top = 1, .bottom = 2, .top_expand = 900, .bottom_expand = 0 },
        { .name = "2/1 expand", .top = 2, .bottom = 1, .top_expand = 500, .bottom_expand = 900 },
        { .name = "1/1 preshrink", .top = 1, .bottom = 1, .top_shrink = 1600, .bottom_shrink = 0 },
        { .name = "1/1 preshrink bottom", .top = 1, .bottom = 1, .top_shrink = 0, .bottom_shrink = 1600 },
        { .name = "1/1 expand wide", .top = 1, .bottom = 1, .top_expand = 900, .bottom_expand = 700, .min_width_expand = 1600 },
        { .name = "2/2 roofing 1", .top = 2, .bottom = 2, .roofing = 1 },
        { .name = "3/2 roofing 2 flooring 1", .top = 3, .bottom = 2, .roofing = 2, .flooring = 1 },
        { .name = "2/2 flooring 1", .top = 2, .bottom = 2, .flooring = 1 },
        { .name = "2/3 roofing 1 flooring 2", .top = 2, .bottom = 3, .roofing = 1, .flooring = 2 },
        { .name = "1/2 roofing 1 flooring 2", .top = 1, .bottom = 2, .roofing = 1, .flooring = 2 },
        { .name = "2/2 roofing 5 flooring 5", .top = 2, .bottom = 2, .roofing = 5, .flooring = 5 },
        { .name = "2/2 roofing 2 flooring 2 no small gaps", .top = 2, .bottom = 2, .no_gaps = true, .roofing = 2, .flooring = 2 },
        { .name = "2/2 roofing 1 flooring 1 overlap", .top = 2, .bottom = 2, .roofing = 1, .flooring = 1, .overlap = 150 },
        { .name = "2/2 roofing 1 expansion", .top = 2, .bottom = 2, .roofing = 1, .flooring = 1, .roofing_expansion = 900 },
        { .name = "2/2 roofing 1 flooring 1 merge", .top = 2, .bottom = 2, .roofing = 1, .flooring = 1, .merge = 1500 },
    };
}

static void explore()
{
    const bool T = vh::thorough();
    for (int part = 0; part < 2; part++)
    {
        if (vh::begin("%s keys", part ? "flooring" : "roofing"))
            kinds(part);
    }
    struct Shape1
    {
        const char* name;
        std::vector<i64> xs, ys;
        int L, quick, thorough; // every nth stack
    };
    const std::vector<Shape1> shapes = {
        { "3x1 thin middle", { 0, 6000, 7200, 13200 }, { 0, 8000 }, 4, 5, 1 },
        { "3x1 narrow middle", { 0, 6000, 8000, 14000 }, { 0, 8000 }, 4, 29, 3 },
        { "2x2", { 0, 6000, 12000 }, { 0, 6000, 12000 }, 3, 5, 1 },
        { "2x1 tall", { 0, 6000, 12000 }, { 0, 6000 }, 6, 5, 1 },
    };
    for (auto& sh : shapes)
        for (int rot = 0; rot < 2; rot++)
        {
            const Grid g(sh.xs, sh.ys, rot);
            const auto pts = samples(g, { 40, 430, 1130, 1900 });
            size_t nth = 0;
            for (const Conf& f : confs())
            {
                nth++;
                for (unsigned long b = 0; b < 16; b++)
                {
                if (! vh::begin("%s %s %s #%lu", sh.name, g.e.name, f.name, b))
                    continue;
                R.conf(f);
                const unsigned cells = 1u << (g.w * g.h);
                unsigned long total = 1;
                for (int l = 0; l < sh.L; l++)
                    total *= cells;
                const unsigned long each = (T ? sh.thorough : sh.quick) * (rot ? (T ? 3 : 7) : 1);
                for (unsigned long k = nth % each + b * each; k < total; k += 16 * each)
                {
                    std::vector<unsigned> m;
                    unsigned long r = k;
                    bool ok = true;
                    for (int l = 0; l < sh.L; l++)
                    {
                        m.push_back(r % cells);
                        r /= cells;
                        ok &= unambiguous(g.w, g.h, m.back());
                    }
                    if (! ok)
                        continue;
                    R.stack(g, m);
                    if (! skinsOf(g, f, pts))
                        break;
                }
                }
            }
        }
    // infill
    const std::vector<IConf> ic = {
        { "plain" },
        { .name = "support 40", .support = true, .angle = 40 },
        { .name = "support 80", .support = true, .angle = 80 },
        { .name = "steps 1", .steps = 1 },
        { .name = "steps 2 height 1", .steps = 2, .step_height = 0.2 },
        { .name = "steps 2 connected", .steps = 2, .step_height = 0.2, .connected = true },
        { .name = "steps 1 height 3 connected", .steps = 1, .step_height = 0.6, .connected = true },
        { .name = "steps 1 no gaps", .steps = 1, .step_height = 0.6, .no_gaps = true },
        { .name = "support and steps", .support = true, .angle = 40, .steps = 1 },
        { .name = "combine 2", .thickness = 0.4 },
        { .name = "combine 3", .thickness = 0.6 },
        { .name = "combine 2 no top", .thickness = 0.4, .top = 0 },
        { .name = "combine 2 steps 1 connected", .steps = 1, .step_height = 0.2, .connected = true, .thickness = 0.4 },
    };
    for (int kind = 0; kind < 3; kind++)
    {
        const int rot = kind == 1;
        const bool wide = kind == 2;
        const Grid g(wide ? std::vector<i64>{ 0, 6000, 8000, 14000 } : std::vector<i64>{ 0, 6000, 12000 }, { 0, 6000 }, rot);
        const auto pts = samples(g, { 430, 1130, 1900 });
        for (size_t ci = 0; ci < ic.size(); ci++)
        {
            const IConf& f = ic[ci];
            for (unsigned long b = 0; b < 16; b++)
            {
            if (! vh::begin("infill %s %s %s #%lu", wide ? "3x1" : "2x1", g.e.name, f.name, b))
                continue;
            R.conf(Conf{ .name = f.name, .top = f.top, .bottom = f.bottom });
            auto set = [&](const std::string& k, const std::string& v) { R.mesh->settings_.add(k, v); };
            set("layer_height", "0.2");
            set("infill_support_angle", std::to_string(f.angle));
            set("gradual_infill_steps", std::to_string(f.steps));
            set("gradual_infill_step_height", std::to_string(f.step_height));
            set("zig_zaggify_infill", f.connected ? "true" : "false");
            set("infill_pattern", "grid");
            set("infill_wall_line_count", "0");
            set("infill_line_distance", "2");
            set("infill_sparse_thickness", std::to_string(f.thickness));
            set("skin_no_small_gaps_heuristic", f.no_gaps ? "true" : "false");
            const int L = wide ? 5 : 7;
            const unsigned long total = 1ul << (g.w * L), each = (T ? 1 : 11) * (rot ? (T ? 3 : 7) : wide ? (T ? 1 : 3) : 1);
            for (unsigned long k = ci % each + b * each; k < total; k += 16 * each)
            {
                std::vector<unsigned> m;
                for (int l = 0; l < L; l++)
                    m.push_back(k >> (g.w * l) & ((1 << g.w) - 1));
                if (! infills(g, f, m, pts))
                    break;
            }
            }
        }
    }
}
int main(int argc, char** argv)
{
    spdlog::set_level(getenv("VH_LOG") ? spdlog::level::err : spdlog::level::off);
    return vh::main_(argc, argv, explore, 1);
}
