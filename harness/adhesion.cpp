// First layers (drawn as images of cells) with their skirt, brim and raft (C30), judged by distances.
#include "ExtruderTrain.h"
#include "SkirtBrim.h"
#include "SupportInfillPart.h"
#include "geometry/ClosedPolyline.h"
#include "geometry/MixedLinesSet.h"
#include "geometry/OpenPolyline.h"
#include "mesh.h"
#include "raft.h"
#include "shapes.h"
#include "sliceDataStorage.h"
#include "utils/AABB.h"
#include "vh.h"
#include "world.h"

using namespace cura;
using namespace vs;

constexpr i64 LW = 400;
constexpr i64 ORG = 100000;

struct Grid
{
    std::vector<i64> xs, ys;
    int w, h;
    Complex c;
    Embed e{ 1, 0, 0, 1, ORG, ORG, "id" };
    Grid(std::vector<i64> x, std::vector<i64> y)
        : xs(x)
        , ys(y)
        , w((int)x.size() - 1)
        , h((int)y.size() - 1)
        , c(quads(w, h))
    {
        for (int j = 0; j <= h; j++)
            for (int i = 0; i <= w; i++)
                c.v[j * (w + 1) + i] = { xs[i], ys[j] };
    }
    Shape shape(unsigned m) const
    {
        return toShape(trace(c, m, e, 0));
    }
};
struct Area
{
    Paths ps;
    Area() = default;
    Area(const Shape& s)
        : ps(fromShape(s))
    {
    }
    bool has(P p) const
    {
        return evenOdd(p, ps);
    }
    double dist(P p) const
    {
        return distBorder(p, ps);
    }
    double to(P p) const
    {
        return has(p) ? 0 : dist(p);
    }
};
struct Line
{
    Path p; // closed lines repeat their first point
    bool closed;
    int inset;
    double length() const
    {
        double s = 0;
        for (size_t i = 0; i + 1 < p.size(); i++)
            s += std::hypot((double)(p[i + 1].x - p[i].x), (double)(p[i + 1].y - p[i].y));
        return s;
    }
};
template<class S>
static void collect(std::vector<Line>& r, const S& set, int inset)
{
    for (const PolylinePtr& l : set)
    {
        Line o{ fromLine(*l), false, inset };
        if (std::dynamic_pointer_cast<const Polygon>(l) || std::dynamic_pointer_cast<const ClosedPolyline>(l))
        {
            o.closed = true;
            if (! o.p.empty() && ! (o.p.front() == o.p.back()))
                o.p.push_back(o.p.front());
        }
        else if (! o.p.empty() && o.p.front() == o.p.back())
            o.closed = true;
        r.push_back(o);
    }
}
static double toLines(P q, const std::vector<Line>& ls, int inset = -1)
{
    double d = 1e9;
    for (auto& l : ls)
        if (inset < 0 || l.inset == inset)
            for (size_t i = 0; i + 1 < l.p.size(); i++)
                d = std::min(d, dist(q, l.p[i], l.p[i + 1]));
    return d;
}
// points along the lines
template<class F>
static bool along(const Line& l, double step, F f)
{
    for (size_t i = 0; i + 1 < l.p.size(); i++)
    {
        const double len = std::hypot((double)(l.p[i + 1].x - l.p[i].x), (double)(l.p[i + 1].y - l.p[i].y));
        const int n = std::max(1, (int)(len / step));
        for (int k = 0; k < n; k++)
        {
            const double t = (k + 0.5) / n;
            if (! f(P{ (i64)std::llround(l.p[i].x + t * (l.p[i + 1].x - l.p[i].x)), (i64)std::llround(l.p[i].y + t * (l.p[i + 1].y - l.p[i].y)) }))
                return false;
        }
    }
    return true;
}
static std::string at(P p)
{
    return "(" + std::to_string(p.x) + "," + std::to_string(p.y) + ")";
}

struct Conf
{
    const char* name;
    const char* type = "brim";
    int lines = 2;
    i64 gap = 0;
    const char* location = "outside";
    i64 min_length = 0;
    int skirt_height = 1;
    i64 margin = 1600; // brim_inside_margin
    int extruder = 0; // skirt_brim_extruder_nr
    bool replace = true; // brim_replaces_support
    i64 shield = 0; // draft shield distance
    i64 min_length1 = 0; // of the second extruder
};
static std::string mm(i64 v)
{
    return std::to_string(v / 1000.0);
}
struct Rig
{
    Scene* scene = nullptr;
    std::vector<std::unique_ptr<Mesh>> meshes;
    std::unique_ptr<SliceDataStorage> st;
    void start(size_t extruders, const std::vector<std::pair<std::string, std::string>>& kv)
    {
        st.reset();
        meshes.clear();
        scene = &world::fresh(extruders, 1);
        scene->mesh_groups[0].settings.setParent(&scene->settings);
        for (auto& [k, v] : kv)
            scene->settings.add(k, v);
    }
    void storage()
    {
        st = std::make_unique<SliceDataStorage>();
        st->support.supportLayers.resize(4);
    }
    // a mesh of the given layers, printed with one extruder
    void add(const Grid& g, const std::vector<unsigned>& layers, int extruder)
    {
        auto m = std::make_unique<Mesh>(scene->mesh_groups[0].settings);
        for (const char* k : { "wall_0_extruder_nr", "wall_x_extruder_nr", "infill_extruder_nr", "top_bottom_extruder_nr", "roofing_extruder_nr", "flooring_extruder_nr" })
            m->settings_.add(k, std::to_string(extruder));
        meshes.push_back(std::move(m));
        auto s = std::make_shared<SliceMeshStorage>(meshes.back().get(), layers.size());
        for (size_t l = 0; l < layers.size(); l++)
            for (const SingleShape& ss : g.shape(layers[l]).splitIntoParts())
            {
                SliceLayerPart& p = s->layers[l].parts.emplace_back();
                p.outline = ss;
                p.print_outline = ss;
                p.inner_area = p.infill_area = ss;
                p.boundaryBox.calculate(p.outline);
            }
        st->meshes.push_back(s);
        st->print_layer_count = std::max(st->print_layer_count, layers.size());
    }
};
static Rig R;

static void configure(const Conf& f, size_t extruders)
{
    R.start(extruders,
            { { "adhesion_type", f.type },
              { "skirt_brim_extruder_nr", std::to_string(f.extruder) },
              { "skirt_brim_line_width", mm(LW) },
              { "initial_layer_line_width_factor", "100" },
              { "brim_line_count", std::to_string(f.lines) },
              { "skirt_line_count", std::to_string(f.lines) },
              { "brim_gap", mm(f.gap) },
              { "skirt_gap", mm(f.gap) },
              { "brim_location", f.location },
              { "skirt_brim_minimal_length", mm(f.min_length) },
              { "skirt_height", std::to_string(f.skirt_height) },
              { "brim_inside_margin", mm(f.margin) },
              { "brim_replaces_support", f.replace ? "true" : "false" },
              { "meshfix_maximum_resolution", "0.25" },
              { "meshfix_maximum_deviation", "0.02" },
              { "meshfix_maximum_extrusion_area_deviation", "0" },
              { "machine_width", "250" },
              { "machine_depth", "250" },
              { "machine_shape", "rectangular" },
              { "machine_center_is_zero", "false" },
              { "machine_disallowed_areas", "[]" },
              { "magic_mesh_surface_mode", "normal" } });
    if (extruders > 1 && f.min_length1)
        R.scene->extruders[1].settings_.add("skirt_brim_minimal_length", mm(f.min_length1));
}

// ---------------------------------------------------------------- skirt
static bool skirt(const Grid& g, const Conf& f, const std::vector<unsigned>& layers)
{
    R.storage();
    R.add(g, layers, 0);
    SkirtBrim(*R.st).generate();
    std::vector<Line> ls;
    for (size_t i = 0; i < R.st->skirt_brim[0].size(); i++)
        collect(ls, R.st->skirt_brim[0][i], (int)i);
    unsigned all = 0;
    for (int l = 0; l < std::min(f.skirt_height, (int)layers.size()); l++)
        all |= layers[l];
    std::string who = std::string("settings '") + f.name + "', layers";
    for (unsigned l : layers)
        who += " " + std::to_string(l);
    // the hull, as the set of corner points
    std::vector<P> pts;
    for (auto& p : trace(g.c, all, g.e, 0))
        for (auto& q : p)
            pts.push_back(q);
    std::sort(pts.begin(), pts.end());
    Path hull;
    for (int half = 0; half < 2; half++)
    {
        const size_t base = hull.size();
        for (size_t k = 0; k < pts.size(); k++)
        {
            const P q = half ? pts[pts.size() - 1 - k] : pts[k];
            while (hull.size() >= base + 2 && cross(hull[hull.size() - 2], hull.back(), q) <= 0)
                hull.pop_back();
            hull.push_back(q);
        }
        hull.pop_back();
    }
    const Paths H{ hull };
    const size_t groups = R.st->skirt_brim[0].size();
    double total = 0, last = 0;
    for (auto& l : ls)
    {
        total += l.length();
        if (l.inset + 1 == (int)groups)
            last += l.length();
        if (! l.closed)
            return vh::fail("%s: a skirt line is open", who.c_str()), false;
        const double want = f.gap + LW / 2 + LW * l.inset;
        if (! along(l, 700, [&](P p)
                    {
                        const double d = evenOdd(p, H) ? 0 : distBorder(p, H);
                        if (std::abs(d - want) < 90)
                            return true;
                        vh::fail("%s: skirt line %d passes %s at %.0f from the hull of the model, %.0f expected", who.c_str(), l.inset, at(p).c_str(), d, want);
                        return false;
                    }))
            return false;
        Path open = l.p;
        open.pop_back();
        if (std::abs(winding(hull[0], open)) != 1)
            return vh::fail("%s: skirt line %d goes %d times around the model", who.c_str(), l.inset, winding(hull[0], open)), false;
    }
    if (all && f.lines == 0 && f.min_length == 0 && ! ls.empty())
        return vh::fail("%s: a skirt although none was asked for", who.c_str()), false;
    if (layers[0] && f.lines)
    {
        if (ls.size() != groups || (int)groups < f.lines)
            return vh::fail("%s: %zu lines in %zu groups, %d expected", who.c_str(), ls.size(), groups, f.lines), false;
        if (total < f.min_length * 0.999 - 50)
            return vh::fail("%s: skirt of %.0f, at least %lld asked for", who.c_str(), total, f.min_length), false;
        if ((int)groups > f.lines && total - last > f.min_length * 1.02 + 100)
            return vh::fail("%s: skirt of %.0f, already %.0f without its last line, %lld asked for", who.c_str(), total, total - last, f.min_length), false;
    }
    uint64_t h = 1;
    for (auto& l : ls)
        h = vh::mix(h, hashPaths({ l.p }));
    vh::outcome(h);
    vh::state(vh::mix(vh::hash(layers.data(), layers.size() * 4), vh::hash(f.name, strlen(f.name))));
    vh::trans(ls.size());
    return true;
}

// ---------------------------------------------------------------- brim
// outlines of a mesh: outer borders and holes
struct Borders
{
    Paths outer, holes;
};
static Borders borders(const Shape& s)
{
    Borders b;
    for (const SingleShape& ss : s.splitIntoParts())
        for (size_t i = 0; i < ss.size(); i++)
            (i == 0 ? b.outer : b.holes).push_back(fromLine(ss[i]));
    return b;
}
struct Owner
{
    int extruder;
    Shape shape;
    Area area;
    Borders b;
};
static bool brim(const Grid& g, const Conf& f, const std::vector<unsigned>& masks, const std::vector<int>& extruder, unsigned support)
{
    const size_t E = R.scene->extruders.size();
    R.storage();
    std::vector<Owner> own;
    Shape everything;
    std::string who = std::string("settings '") + f.name + "', meshes";
    for (size_t i = 0; i < masks.size(); i++)
    {
        R.add(g, { masks[i] }, extruder[i]);
        const Shape s = g.shape(masks[i]);
        own.push_back({ extruder[i], s, Area(s), borders(s) });
        everything.push_back(s);
        who += " " + std::to_string(masks[i]) + "@" + std::to_string(extruder[i]);
    }
    if (support)
        who += " support " + std::to_string(support);
    const Shape support_shape = g.shape(support);
    if (support)
    {
        R.st->support.generated = true;
        for (const SingleShape& s : support_shape.splitIntoParts())
            R.st->support.supportLayers[0].support_infill_parts.emplace_back(s, LW, false);
    }
    everything = everything.unionPolygons();
    const Area model(everything);
    if (f.shield)
        R.st->draft_protection_shield = [&]{ Shape h(everything); h.makeConvex(); return h.offset(f.shield); }();
    SkirtBrim(*R.st).generate();
    Shape support_now;
    if (support)
        for (auto& p : R.st->support.supportLayers[0].support_infill_parts)
            support_now.push_back(p.outline_);
    const Area sup(support_shape), sup_now(support_now);
    std::vector<std::vector<Line>> lines(E);
    std::vector<Line> ls;
    for (size_t e = 0; e < E; e++)
        for (size_t i = 0; i < R.st->skirt_brim[e].size(); i++)
        {
            collect(lines[e], R.st->skirt_brim[e][i], (int)i);
            collect(ls, R.st->skirt_brim[e][i], (int)i);
        }
    const bool outside = strcmp(f.location, "inside") != 0, inside = strcmp(f.location, "outside") != 0;
    const i64 width = f.lines * LW, even = (f.lines + f.lines % 2) * LW;
    i64 x0 = ORG + g.xs[0] - 4000, x1 = ORG + g.xs.back() + 4000, y0 = ORG + g.ys[0] - 4000, y1 = ORG + g.ys.back() + 4000;
    for (size_t e = 0; e < E; e++)
    {
        if (f.extruder >= 0 && (int)e != f.extruder)
            continue; // only to reach a length, see below
        // what this extruder's brim is for
        Shape mine_shape;
        for (auto& o : own)
            if (f.extruder >= 0 || o.extruder == (int)e)
                mine_shape.push_back(o.shape);
        mine_shape = mine_shape.unionPolygons();
        const Borders mine = borders(mine_shape);
        Borders others;
        if (f.extruder < 0)
            for (auto& o : own)
                if (o.extruder != (int)e)
                {
                    others.outer.insert(others.outer.end(), o.b.outer.begin(), o.b.outer.end());
                    others.holes.insert(others.holes.end(), o.b.holes.begin(), o.b.holes.end());
                }
        const Area area(mine_shape);
        const bool takes_support = support && e == 0;
        size_t groups = 0;
        double total = 0, last = 0;
        for (auto& l : lines[e])
            groups = std::max(groups, (size_t)l.inset + 1);
        for (auto& l : lines[e])
        {
            total += l.length();
            if (l.inset + 1 == (int)groups)
                last += l.length();
        }
        auto wanted = [&](P p) // distance to the outlines that get a brim on the side of p, and to those that don't
        {
            double w = 1e9, n = 1e9;
            (outside ? w : n) = distBorder(p, mine.outer);
            double& h = inside ? w : n;
            h = std::min(h, distBorder(p, mine.holes));
            n = std::min(n, std::min(distBorder(p, others.outer), distBorder(p, others.holes)));
            return std::pair{ w, n };
        };
        const size_t most = std::max<size_t>(f.lines, groups);
        for (auto& l : lines[e])
            if (! along(l, 500, [&](P p)
                        {
                            if (model.has(p))
                                return vh::fail("%s: brim line %d passes %s inside the model", who.c_str(), l.inset, at(p).c_str()), false;
                            const double d = model.dist(p);
                            const auto [w, n] = wanted(p);
                            if (d < LW / 2 + f.gap - 50 - 45)
                                return vh::fail("%s: brim line %d passes %s at %.0f from the model, gap %lld", who.c_str(), l.inset, at(p).c_str(), d, f.gap), false;
                            if (n < f.margin + LW / 2 - 45 && ! (f.shield && distBorder(p, fromShape(R.st->draft_protection_shield)) < even + LW))
                                return vh::fail("%s: brim line %d passes %s at %.0f from an outline that gets no brim (gap %lld)", who.c_str(), l.inset, at(p).c_str(), n, f.margin), false;
                            const double s = takes_support ? sup_now.to(p) + f.gap : 1e9;
                            if (takes_support && sup_now.has(p) && sup_now.dist(p) > 60)
                                return vh::fail("%s: brim line %d passes %s inside the support", who.c_str(), l.inset, at(p).c_str()), false;
                            if (! f.shield && f.min_length == 0 && std::min(w, s) > f.gap + most * LW - LW / 2 + 60)
                                return vh::fail("%s: brim line %d passes %s at %.0f from what it is for", who.c_str(), l.inset, at(p).c_str(), std::min(w, s)), false;
                            return true;
                        }))
                return false;
        // lines of different insets keep clear of each other
        for (size_t a = 0; a < lines[e].size(); a++)
            for (size_t b = 0; b < lines[e].size() && ! f.shield; b++)
                if (lines[e][a].inset < lines[e][b].inset
                    && ! along(lines[e][b], 900, [&](P p)
                               {
                                   const double d = toLines(p, { lines[e][a] });
                                   if (d < LW / 2 + 10 - 45)
                                       return vh::fail("%s: brim lines %d and %d pass %.0f from each other at %s", who.c_str(), lines[e][a].inset, lines[e][b].inset, d, at(p).c_str()), false;
                                   return true;
                               }))
                    return false;
        // the width is covered
        for (i64 x = x0; x <= x1 && f.lines > 0; x += 330)
            for (i64 y = y0; y <= y1; y += 330)
            {
                const P p{ x, y };
                if (model.has(p))
                    continue;
                const auto [w, n] = wanted(p);
                if (w < f.gap + 30 || w > f.gap + width - 30 || n < f.margin + 2 * LW + (f.extruder < 0 ? width + f.gap : 0))
                    continue;
                // side: an outer outline's brim is outside of it, a hole's inside
                if (takes_support && sup.to(p) < even + LW)
                    continue;
                if (f.shield && distBorder(p, fromShape(R.st->draft_protection_shield)) < even + 2 * LW)
                    continue;
                // another outline close by: lines of both sides meet somewhere
                int close = 0;
                for (auto* ps : { &mine.outer, &mine.holes })
                    for (auto& path : *ps)
                        close += distBorder(p, { path }) < 2 * (f.gap + width) + 2 * LW;
                const double d = toLines(p, lines[e]);
                const double lim = close > 1 ? f.gap + LW + 60 : LW / 2 + 60;
                if (close > 1 && f.gap)
                    continue;
                if (d > lim && close <= 1)
                {
                    // in the middle of a nook its line may not fit any more
                    const double middle = f.gap + (std::floor((w - f.gap) / LW) + 0.5) * LW;
                    // (a line of a few tenths of a millimetre around the very middle need not be there either)
                    auto deeper = [&](P from, double than)
                    {
                        P best = from;
                        double most = model.has(from) ? -1 : wanted(from).first;
                        for (int k = 0; k < 48; k++)
                        {
                            const P q{ from.x + (i64)((LW / 2 + 40) * std::cos(k * M_PI / 24)), from.y + (i64)((LW / 2 + 40) * std::sin(k * M_PI / 24)) };
                            const double v = model.has(q) ? -1 : wanted(q).first;
                            if (v > most)
                                most = v, best = q;
                        }
                        return std::pair{ most >= than, best };
                    };
                    auto [fits, q] = deeper(p, middle + 5);
                    fits = fits && deeper(q, middle + LW / 2).first;
                    if (fits)
                        return vh::fail("%s: no brim at %s: %.0f from the outline, gap %lld, width %lld, nearest line %.0f", who.c_str(), at(p).c_str(), w, f.gap, width, d), false;
                }
            }
        // around what touches support
        if (takes_support && f.lines > 0 && outside)
        {
            for (i64 x = x0; x <= x1; x += 330)
                for (i64 y = y0; y <= y1; y += 330)
                {
                    const P p{ x, y };
                    const double s = sup_now.to(p);
                    if (s < 30 || s > width - 30 || model.to(p) < f.gap + even + std::max<i64>(width, f.margin) + 2 * LW)
                        continue;
                    int close = 0;
                    for (const SingleShape& ss : support_now.unionPolygons().splitIntoParts())
                        for (auto& poly : ss)
                            close += distBorder(p, { fromLine(poly) }) < 2 * width + 2 * LW;
                    if (close > 1 || evenOdd(p, [&] { Paths o; for (auto& ss : support_now.splitIntoParts()) o.push_back(fromLine(ss.outerPolygon())); return o; }()))
                        continue;
                    const double d = toLines(p, lines[e]);
                    if (d > LW / 2 + 60)
                        return vh::fail("%s: no brim at %s: %.0f from the support, nearest line %.0f", who.c_str(), at(p).c_str(), s, d), false;
                }
        }
        if (f.min_length && ! mine_shape.empty() && f.lines)
        {
            if (total < f.min_length * 0.97 - 100)
                return vh::fail("%s: brim of %.0f, at least %lld asked for", who.c_str(), total, f.min_length), false;
            if ((int)groups > f.lines && total - last > f.min_length * 1.03 + 6000)
                return vh::fail("%s: brim of %.0f, already %.0f without its last line, %lld asked for", who.c_str(), total, total - last, f.min_length), false;
        }
    }
    // brim of the other extruder, only for its length: outside of everything else
    if (f.extruder >= 0 && E > 1)
    {
        const size_t e = 1 - f.extruder;
        bool used = false;
        for (auto& o : own)
            used |= o.extruder == (int)e; // even when it is empty
        const i64 min_length = e == 1 ? f.min_length1 : f.min_length;
        double total = 0;
        for (auto& l : lines[e])
            total += l.length();
        if (used && total < min_length * 0.97 - 100)
            return vh::fail("%s: %.0f for extruder %zu, at least %lld asked for", who.c_str(), total, e, min_length), false;
        if (! used && ! lines[e].empty())
            return vh::fail("%s: lines for extruder %zu, which is not used", who.c_str(), e), false;
        if (min_length == 0 && ! lines[e].empty())
            return vh::fail("%s: lines for extruder %zu, which needs none", who.c_str(), e), false;
        for (auto& l : lines[e])
            if (! along(l, 900, [&](P p)
                        {
                            const double d = model.to(p), b = toLines(p, lines[1 - e]);
                            if (d < LW / 2 - 95 || b < LW / 2 - 45)
                                return vh::fail("%s: extra line of extruder %zu at %s is %.0f from the model, %.0f from the brim", who.c_str(), e, at(p).c_str(), d, b), false;
                            Paths o;
                            for (auto& w : own)
                                for (auto& path : w.b.outer)
                                    if (evenOdd(p, { path }))
                                        return vh::fail("%s: extra line of extruder %zu at %s inside a hole", who.c_str(), e, at(p).c_str()), false;
                            return true;
                        }))
                return false;
    }
    // support under the brim
    if (support)
    {
        for (i64 x = x0; x <= x1; x += 410)
            for (i64 y = y0; y <= y1; y += 410)
            {
                const P p{ x, y };
                if (std::min(sup.dist(p), sup_now.dist(p)) < 15)
                    continue;
                double d = 1e9, n = 1e9;
                for (auto& o : own)
                {
                    (outside ? d : n) = std::min(outside ? d : n, distBorder(p, o.b.outer));
                    (inside ? d : n) = std::min(inside ? d : n, distBorder(p, o.b.holes));
                }
                if (std::abs(d - even) < 30)
                    continue;
                const bool gone = f.replace && f.lines > 0 && d < even && (f.extruder <= 0);
                const bool expect = sup.has(p) && ! gone;
                if (model.has(p))
                    continue; // support is never there
                if (sup_now.has(p) != expect)
                    return vh::fail("%s: support %s at %s, %.0f from the model, brim of %lld", who.c_str(), expect ? "lost" : "left", at(p).c_str(), d, width), false;
            }
        for (auto& p : R.st->support.supportLayers[0].support_infill_parts)
            if (p.support_line_width_ != LW)
                return vh::fail("%s: a piece of support has a line width of %lld", who.c_str(), (long long)p.support_line_width_), false;
    }
    // the shield gets its own brim
    if (f.shield && f.lines > 0 && strcmp(f.type, "brim") == 0)
    {
        const Area sh(R.st->draft_protection_shield);
        for (i64 x = x0 - f.shield; x <= x1 + f.shield; x += 410)
            for (i64 y = y0 - f.shield; y <= y1 + f.shield; y += 410)
            {
                const P p{ x, y };
                const double d = sh.has(p) ? sh.dist(p) : -sh.dist(p), l = toLines(p, ls);
                if (d < -60 - LW / 2 && l < LW / 2 - 60)
                    return vh::fail("%s: brim outside of the shield at %s", who.c_str(), at(p).c_str()), false;
                if (d > 0 && d < even && model.to(p) > f.gap + width + LW && l > LW / 2 + 60)
                    return vh::fail("%s: no brim under the shield at %s (%.0f inside, nearest line %.0f)", who.c_str(), at(p).c_str(), d, l), false;
            }
    }
    uint64_t h = 1;
    for (auto& l : ls)
        h = vh::mix(h, hashPaths({ l.p }));
    vh::outcome(h);
    vh::state(vh::mix(vh::mix(vh::hash(masks.data(), masks.size() * 4), support), vh::mix(vh::hash(f.name, strlen(f.name)), g.xs[1])));
    vh::trans(ls.size());
    return true;
}

// ---------------------------------------------------------------- brim of support
static bool supportBrim(const Grid& g, unsigned support, unsigned m, int in_lines, i64 out_width, i64 xy, double min_hole)
{
    R.storage();
    R.add(g, { m }, 0);
    const Shape s0 = g.shape(support), m0 = g.shape(m);
    R.st->support.generated = true;
    for (const SingleShape& s : s0.splitIntoParts())
        R.st->support.supportLayers[0].support_infill_parts.emplace_back(s, LW, false);
    SkirtBrim(*R.st).generateSupportBrim();
    std::vector<Line> ls;
    collect(ls, R.st->support_brim, 0);
    Shape now;
    for (auto& p : R.st->support.supportLayers[0].support_infill_parts)
        now.push_back(p.outline_);
    const Area sup(s0), left(now), model(m0);
    const std::string who = "support " + std::to_string(support) + " model " + std::to_string(m) + " inside " + std::to_string(in_lines) + " outside " + std::to_string(out_width);
    const i64 in_width = in_lines * LW, out = out_width / LW * LW;
    for (auto& l : ls)
        if (! along(l, 500, [&](P p)
                    {
                        const double d = sup.dist(p);
                        if (sup.has(p) ? d > (in_width - LW / 2) * 2.05 + 30 : d > (out - LW / 2) * 2.05 + 30)
                            return vh::fail("%s: support brim passes %s at %.0f %s the support's border", who.c_str(), at(p).c_str(), d, sup.has(p) ? "inside" : "outside"), false;
                        if (! sup.has(p) && (model.to(p) < xy - 30))
                            return vh::fail("%s: support brim passes %s at %.0f from the model", who.c_str(), at(p).c_str(), model.to(p)), false;
                        return true;
                    }))
            return false;
    for (i64 x = ORG + g.xs[0] - 2500; x <= ORG + g.xs.back() + 2500; x += 370)
        for (i64 y = ORG + g.ys[0] - 2500; y <= ORG + g.ys.back() + 2500; y += 370)
        {
            const P p{ x, y };
            const double d = sup.dist(p), l = toLines(p, ls);
            if (sup.has(p))
            {
                if (std::abs(d - in_width) < 20 || d < 20)
                    continue;
                if (d < 2.05 * in_width && d > in_width)
                    continue; // mitres
                if (left.has(p) != (d > in_width))
                    return vh::fail("%s: support %s at %s, %.0f inside its border", who.c_str(), left.has(p) ? "left under its brim" : "lost", at(p).c_str(), d), false;
                if (d < in_width - 20 && l > LW / 2 + 60 && min_hole == 0)
                    return vh::fail("%s: no brim inside the support at %s, %.0f from its border (nearest line %.0f)", who.c_str(), at(p).c_str(), d, l), false;
                // only holes are left out, when they are small
                if (d < in_width - 20 && l > LW / 2 + 60)
                {
                    Paths outer;
                    for (const SingleShape& ss : s0.splitIntoParts())
                        outer.push_back(fromLine(ss.outerPolygon()));
                    bool small = false;
                    for (const SingleShape& ss : s0.splitIntoParts())
                        for (size_t i = 1; i < ss.size(); i++)
                            small |= distBorder(p, { fromLine(ss[i]) }) < in_width && std::abs(ss[i].area()) < min_hole * 1e6;
                    // a ring within the support leaves holes that shrink towards the middle
                    if (! small && distBorder(p, outer) > in_width)
                        return vh::fail("%s: no brim around a large hole in the support at %s", who.c_str(), at(p).c_str()), false;
                }
            }
            else if (d > 20 && d < out - 20 && model.to(p) > xy + LW && l > LW / 2 + 60)
            {
                bool corner = d > 0; // mitred corners reach further than round ones, never less
                if (corner)
                    return vh::fail("%s: no brim outside the support at %s, %.0f from its border (nearest line %.0f)", who.c_str(), at(p).c_str(), d, l), false;
            }
        }
    vh::state(vh::mix(vh::mix(support, m), vh::mix(in_lines, out_width)));
    vh::trans(ls.size());
    return true;
}

// ---------------------------------------------------------------- raft
struct RConf
{
    const char* name;
    i64 base = 2000, inter = 1500, surf = 1000, smooth = 0;
    bool convex = false;
    i64 shield = 0;
};
static bool raft(const Grid& g, const RConf& f, unsigned m, unsigned support)
{
    R.storage();
    R.add(g, { m }, 0);
    Shape all = g.shape(m);
    const Shape s0 = g.shape(support);
    if (support)
    {
        R.st->support.generated = true;
        for (const SingleShape& s : s0.splitIntoParts())
            R.st->support.supportLayers[0].support_infill_parts.emplace_back(s, LW, false);
        all = all.unionPolygons(s0);
    }
    if (f.shield)
        R.st->draft_protection_shield = [&]{ Shape h(all); h.makeConvex(); return h.offset(f.shield); }();
    const Area area(all), shield(R.st->draft_protection_shield);
    Raft::generate(*R.st);
    const std::string who = std::string("settings '") + f.name + "', model " + std::to_string(m) + " support " + std::to_string(support);
    uint64_t h = 1;
    for (int k = 0; k < 3; k++)
    {
        const Shape& out = k == 0 ? R.st->raft_base_outline : k == 1 ? R.st->raft_interface_outline : R.st->raft_surface_outline;
        const i64 margin = k == 0 ? f.base : k == 1 ? f.inter : f.surf;
        const char* what = k == 0 ? "base" : k == 1 ? "interface" : "surface";
        const Area raft(out);
        h = vh::mix(h, hashPaths(raft.ps));
        const i64 most = std::max({ f.base, f.inter, f.surf });
        auto covered = [&](P p) // how far outside what must be covered
        {
            double d = area.to(p) - margin;
            if (f.shield)
            {
                const double s = shield.has(p) ? shield.dist(p) - (most + LW / 2) : shield.dist(p) - LW;
                d = std::min(d, s);
            }
            return d;
        };
        for (i64 x = ORG + g.xs[0] - 6000; x <= ORG + g.xs.back() + 6000; x += 470)
            for (i64 y = ORG + g.ys[0] - 6000; y <= ORG + g.ys.back() + 6000; y += 470)
            {
                const P p{ x, y };
                const double d = covered(p);
                if (raft.dist(p) < 15 || std::abs(d) < 40)
                    continue;
                const bool has = raft.has(p);
                if (d < 0 && ! has)
                {
                    // what is thinner than two lines is lost
                    if (margin < LW && d > -LW * 0.45)
                        continue;
                    return vh::fail("%s: no %s raft at %s, %.0f from the model, margin %lld", who.c_str(), what, at(p).c_str(), area.to(p), margin), false;
                }
                if (d > 0 && has && ! f.convex)
                {
                    if (f.shield && d < LW * 0.6)
                        continue; // mitred corners
                    // may be filled when no disc of the smoothing radius fits over it
                    bool fits = f.smooth == 0;
                    for (int a = 0; a < 48 && ! fits; a++)
                        for (double r : { 0.97, 0.6, 0.3, 0.0 })
                        {
                            const P c{ (i64)(x + f.smooth * r * std::cos(a * M_PI / 24)), (i64)(y + f.smooth * r * std::sin(a * M_PI / 24)) };
                            if (covered(c) > f.smooth + 30)
                                fits = true;
                        }
                    if (fits)
                        return vh::fail("%s: %s raft at %s, %.0f beyond its margin", who.c_str(), what, at(p).c_str(), d), false;
                }
            }
        if (f.convex)
        {
            // each part convex, and the hull of what lies in it
            for (const SingleShape& part : out.splitIntoParts())
            {
                if (part.size() != 1)
                    return vh::fail("%s: %s raft with a hole", who.c_str(), what), false;
                const Path o = fromLine(part.outerPolygon());
                for (size_t i = 0; i < o.size(); i++)
                    if (cross(o[i], o[(i + 1) % o.size()], o[(i + 2) % o.size()]) < -(i128)40 * 12000)
                        return vh::fail("%s: %s raft has an inside corner at %s", who.c_str(), what, at(o[(i + 1) % o.size()]).c_str()), false;
                for (size_t i = 0; i < o.size(); i++)
                    if (covered(o[i]) > 60)
                        return vh::fail("%s: %s raft has a corner at %s, %.0f beyond its margin", who.c_str(), what, at(o[i]).c_str(), covered(o[i])), false;
            }
        }
    }
    vh::outcome(h);
    vh::state(vh::mix(vh::mix(m, support), vh::hash(f.name, strlen(f.name))));
    vh::trans(3);
    return true;
}
static void raftLayers()
{
    for (const char* type : { "raft", "brim" })
        for (int inter = 0; inter <= 3; inter++)
            for (int surf = 0; surf <= 3; surf++)
                for (i64 gap : { 0, 90, 150, 200, 290, 310, 520, 800 })
                    for (i64 lh : { 100, 200, 300 })
                    {
                        const bool on = ! strcmp(type, "raft");
                        R.start(1, { { "adhesion_type", type }, { "raft_interface_layers", std::to_string(inter) }, { "raft_surface_layers", std::to_string(surf) }, { "raft_airgap", mm(gap) }, { "layer_height", mm(lh) },
                                     { "raft_base_thickness", "0.31" }, { "raft_interface_thickness", "0.27" }, { "raft_surface_thickness", "0.23" }, { "raft_interface_z_offset", "0.05" }, { "raft_surface_z_offset", "0.03" } });
                        const i64 filler = on ? (gap + lh / 2) / lh : 0; // to the nearest
                        VH_CHECK((i64)Raft::getFillerLayerCount() == filler, "gap %lld of layers of %lld: %zu filler layers", gap, lh, Raft::getFillerLayerCount());
                        VH_CHECK(Raft::getBaseLayers() == (on ? 1 : 0) && (int)Raft::getInterfaceLayers() == (on ? inter : 0) && (int)Raft::getSurfaceLayers() == (on ? surf : 0), "%s with %d interface and %d surface layers: %zu %zu %zu", type, inter,
                                 surf, Raft::getBaseLayers(), Raft::getInterfaceLayers(), Raft::getSurfaceLayers());
                        const i64 total = on ? 1 + inter + surf + filler : 0;
                        VH_CHECK((i64)Raft::getTotalExtraLayers() == total, "%lld extra layers, %zu reported", total, Raft::getTotalExtraLayers());
                        if (on && filler)
                            VH_CHECK(std::abs((i64)Raft::getFillerLayerHeight() * filler - gap) <= filler, "%lld filler layers of %lld fill a gap of %lld", filler, (i64)Raft::getFillerLayerHeight(), gap);
                        if (on)
                            VH_CHECK(Raft::getTotalThickness() == 310 + inter * 270 + surf * 230 + 80, "thickness %lld with %d interface and %d surface layers", (i64)Raft::getTotalThickness(), inter, surf);
                        VH_CHECK(Raft::getZdiffBetweenRaftAndLayer0() == (on ? gap : 0), "gap %lld", (i64)Raft::getZdiffBetweenRaftAndLayer0());
                        if (on)
                            for (i64 l = -total; l <= 1; l++)
                            {
                                const i64 k = l + total; // from the bottom
                                const auto want = l >= 0 ? Raft::Model : k < 1 ? Raft::RaftBase : k < 1 + inter ? Raft::RaftInterface : k < 1 + inter + surf ? Raft::RaftSurface : Raft::Airgap;
                                VH_CHECK(Raft::getLayerType(LayerIndex(l)) == want, "%d interface, %d surface, %lld filler layers: layer %lld is of type %d", inter, surf, filler, l, (int)Raft::getLayerType(LayerIndex(l)));
                            }
                        vh::state(vh::mix(vh::mix(inter, surf), vh::mix(gap, lh * 2 + on)));
                    }
}

static void explore()
{
    const bool T = vh::thorough();
    const Grid ring({ 0, 6000, 12000, 18000 }, { 0, 6000, 12000, 18000 }), near({ 0, 8000, 9000, 17000 }, { 0, 8000, 16000 }), strip({ 0, 4000, 8000, 12000, 16000, 20000 }, { 0, 700, 4700 }), four({ 0, 7000, 14000 }, { 0, 7000, 14000 });
    if (vh::begin("raft layers"))
        raftLayers();
    const std::vector<Conf> skirts = {
        { .name = "1 line gap 3", .type = "skirt", .lines = 1, .gap = 3000 },
        { .name = "3 lines gap 0", .type = "skirt", .lines = 3, .gap = 0, .location = "inside" },
        { .name = "0 lines", .type = "skirt", .lines = 0, .gap = 1000 },
        { .name = "1 line min 900", .type = "skirt", .lines = 1, .gap = 1000, .location = "everywhere", .min_length = 900000 },
        { .name = "2 lines min 100", .type = "skirt", .lines = 2, .gap = 1000, .min_length = 100000 },
        { .name = "2 lines height 2", .type = "skirt", .lines = 2, .gap = 2000, .skirt_height = 2 },
        { .name = "1 line height 9", .type = "skirt", .lines = 1, .gap = 2000, .skirt_height = 9 },
        { .name = "2 lines any extruder", .type = "skirt", .lines = 2, .gap = 1500, .extruder = -1 },
    };
    for (size_t c = 0; c < skirts.size(); c++)
        for (int b = 0; b < 8; b++)
        {
            if (! vh::begin("skirt %s #%d", skirts[c].name, b))
                continue;
            configure(skirts[c], 1);
            const bool tall = skirts[c].skirt_height > 1;
            if (tall)
            {
                for (unsigned k = b; k < 4096; k += 8)
                {
                    std::vector<unsigned> l{ k & 15, k >> 4 & 15, k >> 8 & 15 };
                    if ((! T && (k / 8 + c) % 3) || l[0] == 0 || ! unambiguous(2, 2, l[0]) || ! unambiguous(2, 2, l[1]) || ! unambiguous(2, 2, l[2]))
                        continue;
                    if (! skirt(four, skirts[c], l))
                        break;
                }
            }
            else
                for (unsigned k = 1 + b; k < 512; k += 8)
                    if (unambiguous(3, 3, k) && ! skirt(ring, skirts[c], { k }))
                        break;
        }
    const std::vector<Conf> brims = {
        { .name = "2 lines", .lines = 2 },
        { .name = "1 line gap", .lines = 1, .gap = 300 },
        { .name = "3 lines gap 1", .lines = 3, .gap = 100 },
        { .name = "0 lines", .lines = 0 },
        { .name = "2 lines inside", .lines = 2, .location = "inside" },
        { .name = "3 lines inside gap", .lines = 3, .gap = 200, .location = "inside" },
        { .name = "2 lines everywhere", .lines = 2, .location = "everywhere" },
        { .name = "3 lines min 500", .lines = 3, .min_length = 500000 },
        { .name = "2 lines min 50", .lines = 2, .min_length = 50000 },
        { .name = "2 lines margin", .lines = 4, .margin = 600 },
        { .name = "2 lines shield", .lines = 2, .shield = 5000 },
        { .name = "3 lines any extruder", .lines = 3, .extruder = -1 },
    };
    for (size_t c = 0; c < brims.size(); c++)
        for (int gi = 0; gi < 2; gi++)
            for (int b = 0; b < 8; b++)
            {
                if (! vh::begin("brim %s grid %d #%d", brims[c].name, gi, b))
                    continue;
                configure(brims[c], 1);
                const Grid& g = gi ? near : ring;
                for (unsigned k = 1 + b; k < 1u << (g.w * g.h); k += 8)
                    if (unambiguous(g.w, g.h, k) && (T || gi || (k / 8 + c) % 3 == 0 || k == 495) && ! brim(g, brims[c], { k }, { 0 }, 0))
                        break;
            }
    // two meshes with an extruder each
    const std::vector<Conf> two = {
        { .name = "2 lines each", .lines = 2, .extruder = -1 },
        { .name = "2 lines gap each", .lines = 2, .gap = 150, .extruder = -1 },
        { .name = "2 lines everywhere each", .lines = 2, .location = "everywhere", .extruder = -1 },
        { .name = "2 lines all by 0", .lines = 2, .extruder = 0 },
        { .name = "2 lines all by 1", .lines = 2, .extruder = 1 },
        { .name = "2 lines all by 0, 1 needs 300", .lines = 2, .margin = 600, .extruder = 0, .min_length1 = 300000 },
    };
    // one within the other
    const std::vector<Conf> nested = {
        { .name = "outside", .lines = 2, .extruder = -1 },
        { .name = "inside", .lines = 3, .location = "inside", .extruder = -1 },
        { .name = "everywhere", .lines = 3, .location = "everywhere", .margin = 300, .extruder = -1 },
        { .name = "outside all by 0", .lines = 2, .margin = 500, .extruder = 0 },
        { .name = "inside all by 1", .lines = 5, .location = "inside", .margin = 500, .extruder = 1 },
        { .name = "inside all by 0", .lines = 5, .location = "inside", .margin = 500, .extruder = 0 },
        { .name = "everywhere all by 1", .lines = 9, .location = "everywhere", .margin = 500, .extruder = 1 },
    };
    const Grid rings({ 0, 3000, 6200, 9200, 12800, 15800 }, { 0, 3000, 6800, 9800, 13000, 16000 });
    for (auto& f : nested)
        for (int e = 0; e < 4; e++)
        {
            if (! vh::begin("nested %s extruders %d %d", f.name, e & 1, e >> 1))
                continue;
            configure(f, 2);
            // the ring (closed or without one of its cells) around any of the other cells
            const unsigned inner = 1 << 6 | 1 << 7 | 1 << 8 | 1 << 11 | 1 << 12 | 1 << 13 | 1 << 16 | 1 << 17 | 1 << 18, ring_cells = ~inner & ((1u << 25) - 1);
            for (unsigned island : { 1u << 12, 1u << 12 | 1u << 13, 1u << 6 | 1u << 18, inner, 1u << 7 })
                for (unsigned gone : { 0u, 1u << 2, 1u << 24 })
                    for (int order = 0; order < 2; order++)
                        if (((e & 1) == e >> 1 || island == 1u << 12) && // (of different extruders only what doesn't touch)
                            ! (order ? brim(rings, f, { island, ring_cells & ~gone }, { e & 1, e >> 1 }, 0) : brim(rings, f, { ring_cells & ~gone, island }, { e & 1, e >> 1 }, 0)))
                            goto out2;
        out2:;
        }
    for (size_t c = 0; c < two.size(); c++)
        for (int b = 0; b < 8; b++)
        {
            if (! vh::begin("two meshes %s #%d", two[c].name, b))
                continue;
            configure(two[c], 2);
            // each cell: none, first, second
            int n = 0;
            for (unsigned k = 1; k < 729; k++)
            {
                unsigned a = 0, d = 0;
                for (unsigned i = 0, r = k; i < 6; i++, r /= 3)
                {
                    if (r % 3 == 1)
                        a |= 1 << i;
                    if (r % 3 == 2)
                        d |= 1 << i;
                }
                if (! a || ! unambiguous(3, 2, a) || ! unambiguous(3, 2, d) || ! unambiguous(3, 2, a | d))
                    continue;
                n++;
                if (n % 8 != b || (! T && (n / 8 + c) % 3))
                    continue;
                if (! brim(near, two[c], { a, d }, { 0, 1 }, 0))
                    break;
            }
        }
    // support beside the model
    const std::vector<Conf> sup = {
        { .name = "2 lines", .lines = 2 },
        { .name = "3 lines", .lines = 3 },
        { .name = "2 lines gap", .lines = 2, .gap = 200 },
        { .name = "2 lines kept", .lines = 2, .replace = false },
        { .name = "2 lines inside", .lines = 2, .location = "inside" },
    };
    for (size_t c = 0; c < sup.size(); c++)
        for (int b = 0; b < 8; b++)
        {
            if (! vh::begin("support and brim %s #%d", sup[c].name, b))
                continue;
            configure(sup[c], 1);
            int n = 0;
            for (unsigned m = 1; m < 64; m++)
                for (unsigned s = 1; s < 64; s++)
                {
                    if (m & s || ! unambiguous(3, 2, m) || ! unambiguous(3, 2, s) || ! unambiguous(3, 2, m | s))
                        continue;
                    n++;
                    if (n % 8 != b || (! T && (n / 8 + c) % 3))
                        continue;
                    if (! brim(near, sup[c], { m }, { 0 }, s))
                        goto next;
                }
            // a strip of support, cut to pieces by the brims of models beside it
            for (unsigned m = 1 + b; m < 32; m += 8)
                for (unsigned s = 1; s < 32; s++)
                    if (T || s == 31 || (s + m) % 3 == 0)
                        if (! brim(strip, sup[c], { m << 5 }, { 0 }, s))
                            goto next;
        next:;
        }
    for (int in = 0; in <= 2; in++)
        for (i64 out : { (i64)0, (i64)900, (i64)2000 })
            for (double hole : { 0.0, 20.0 })
            {
                if (! vh::begin("support brim inside %d outside %lld holes %.0f", in, out, hole))
                    continue;
                configure(Conf{ .name = "", .type = "skirt" }, 1);
                for (auto& [k, v] : std::vector<std::pair<std::string, std::string>>{ { "support_brim_enable", in ? "true" : "false" }, { "support_brim_line_count", std::to_string(in) }, { "support_base_outside_width", mm(out) },
                                                                                      { "support_outside_base_height", "0.4" }, { "layer_height", "0.2" }, { "support_outer_brim_enable", out ? "true" : "false" }, { "support_xy_distance", "0.7" },
                                                                                      { "support_brim_minimum_hole_area", std::to_string(hole) } })
                    R.scene->settings.add(k, v);
                int n = 0;
                for (unsigned s = 1; s < 512; s++)
                    if (unambiguous(3, 3, s) && (T || s == 495 || n++ % 2 == 0))
                        if (! supportBrim(ring, s, s == 495 ? 0 : ~s & 0x111 & 511, in, out, 700, hole))
                            break;
            }
    const std::vector<RConf> rafts = {
        { .name = "margins" },
        { .name = "no margins", .base = 0, .inter = 0, .surf = 0 },
        { .name = "smooth", .base = 1000, .inter = 2000, .surf = 600, .smooth = 2000 },
        { .name = "convex", .base = 1200, .inter = 700, .surf = 500, .convex = true },
        { .name = "shield", .base = 1200, .inter = 700, .surf = 500, .shield = 4000 },
    };
    for (auto& f : rafts)
        for (int gi = 0; gi < 2; gi++)
            for (int b = 0; b < 4; b++)
            {
                if (! vh::begin("raft %s grid %d #%d", f.name, gi, b))
                    continue;
                std::vector<std::pair<std::string, std::string>> kv = { { "adhesion_type", "raft" }, { "raft_base_margin", mm(f.base) }, { "raft_interface_margin", mm(f.inter) }, { "raft_surface_margin", mm(f.surf) }, { "skirt_brim_line_width", mm(LW) } };
                for (const char* k : { "base", "interface", "surface" })
                {
                    kv.push_back({ std::string("raft_") + k + "_smoothing", mm(f.smooth) });
                    kv.push_back({ std::string("raft_") + k + "_remove_inside_corners", f.convex ? "true" : "false" });
                }
                R.start(1, kv);
                const Grid& g = gi ? near : ring;
                for (unsigned m = 1 + b; m < 1u << (g.w * g.h); m += 4)
                    for (unsigned s = 0; s < (gi ? 64u : 1u); s++)
                        if (! (m & s) && unambiguous(g.w, g.h, m) && unambiguous(g.w, g.h, s) && unambiguous(g.w, g.h, m | s) && (T || (m / 4 + s) % 3 == 0))
                            if (! raft(g, f, m, s))
                                goto out;
            out:;
            }
}
int main(int argc, char** argv)
{
    spdlog::set_level(getenv("VH_LOG") ? spdlog::level::err : spdlog::level::off);
    return vh::main_(argc, argv, explore, 1);
}
