// C41: the collision, avoidance, placeable and wall areas for tree support, on stacks of layers.
#include "TreeModelVolumes.h"
#include "TreeSupport.h"
#include "TreeSupportEnums.h"
#include "TreeSupportSettings.h"
#include "geometry/OpenPolyline.h"
#include "shapes.h"
#include "sliceDataStorage.h"
#include "vh.h"
#include "world.h"
#include <deque>
#include <queue>
#include <thread>

using namespace cura;
using namespace vs;

constexpr i64 M = 24000; // side of the machine
constexpr i64 U = 3000, OFF = 7500; // cells of the images
constexpr int L = 5; // layers

static Shape box(i64 x0, i64 y0, i64 x1, i64 y1)
{
    return toShape({ { { x0, y0 }, { x1, y0 }, { x1, y1 }, { x0, y1 } } });
}
// the alphabet of layers
static Shape layerShape(int k)
{
    static const Complex c = quads(3, 3);
    Embed e{ U, 0, 0, U, OFF, OFF, "id" };
    switch (k)
    {
    case 0:
        return Shape();
    case 1:
        return toShape(trace(c, 0x010, e)); // one cell
    case 2:
        return toShape(trace(c, 0x1ef, e)); // a ring
    case 3:
        return box(12000, -1000, M + 1000, M + 1000); // the right half
    case 4:
        return box(11000, -1000, 11200, M + 1000); // a thin wall across everything
    case 5:
        return toShape(trace(c, 0x1ff, e)); // a block
    case 6:
        return toShape(trace(c, 0x145, e)); // four corners
    case 7:
        return toShape(trace(c, 0x03f, e)); // two rows
    }
    return Shape();
}
struct Cfg
{
    bool z_over_xy;
    i64 xy, xy_min, z_top, z_bottom;
    bool everywhere;
    i64 move, slow;
};
static const Cfg CFGS[] = {
    { true, 700, 300, 200, 200, true, 900, 300 },   { true, 700, 300, 400, 0, true, 3000, 300 },   { false, 500, 200, 200, 200, false, 900, 900 },
    { false, 500, 300, 300, 400, true, 2600, 900 }, { true, 400, 400, 0, 200, false, 1900, 150 },
};

struct Rig
{
    std::shared_ptr<SliceDataStorage> st;
    std::vector<Shape> model, blocker;
    Cfg cfg;
    Scene* scene = nullptr;
    Rig(const std::vector<int>& stack, const Cfg& c, int blocked /* layer with a support blocker, or -1 */)
        : cfg(c)
    {
        static Scene* sc = nullptr;
        if (! sc)
        {
            sc = &world::fresh(1, 1);
            sc->mesh_groups[0].settings.setParent(&sc->settings);
            sc->mesh_groups[0].meshes.emplace_back(sc->mesh_groups[0].settings);
        }
        scene = sc;
        Settings& s = scene->mesh_groups[0].settings;
        auto mm = [](i64 v) { return std::to_string(v / 1000.0); };
        s.add("machine_width", mm(M));
        s.add("machine_depth", mm(M));
        s.add("machine_center_is_zero", "false");
        s.add("machine_disallowed_areas", "[]");
        s.add("layer_height", "0.2");
        s.add("layer_height_0", "0.2");
        s.add("support_xy_overrides_z", c.z_over_xy ? "z_overrides_xy" : "xy_overrides_z");
        s.add("support_xy_distance", mm(c.xy));
        s.add("support_xy_distance_overhang", mm(c.xy_min));
        s.add("support_top_distance", mm(c.z_top));
        s.add("support_bottom_distance", mm(c.z_bottom));
        s.add("support_type", c.everywhere ? "everywhere" : "buildplate");
        s.add("support_tree_branch_diameter", "2");
        s.add("support_tree_tip_diameter", "0.8");
        s.add("support_tree_rest_preference", "buildplate");
        s.add("meshfix_maximum_resolution", "0.02");
        s.add("meshfix_maximum_deviation", "0.01");
        s.add("meshfix_maximum_extrusion_area_deviation", "0");
        s.add("support_enlarged_wall_thickness", "0");
        s.add("support_wall_thickness_bottom_layers", "0");
        s.add("support_wall_thickness_top_layers", "0");
        s.add("support_wall_thickness_layer_smooth", "0");
        s.add("support_wall_thickness", "0");
        s.add("adhesion_type", "none");
        scene->mesh_groups[0].meshes[0].settings_ = s; // a mesh takes a copy
        st = std::make_shared<SliceDataStorage>();
        st->print_layer_count = L;
        st->support.supportLayers.resize(L);
        st->meshes.push_back(std::make_shared<SliceMeshStorage>(&scene->mesh_groups[0].meshes[0], L));
        SliceMeshStorage& mesh = *st->meshes[0];
        mesh.layer_nr_max_filled_layer = L - 1;
        blocker.resize(L);
        for (int l = 0; l < L; l++)
        {
            model.push_back(layerShape(stack[l]));
            for (SingleShape& p : model.back().splitIntoParts())
            {
                mesh.layers[l].parts.emplace_back();
                mesh.layers[l].parts.back().outline = p;
                mesh.layers[l].parts.back().print_outline = p;
            }
            if (l == blocked)
            {
                blocker[l] = box(4000, 15000, 8000, 20000);
                st->support.supportLayers[l].anti_overhang = blocker[l];
            }
        }
    }
    TreeModelVolumes make() const
    {
        return TreeModelVolumes(*st, cfg.move, cfg.slow, 100, 0, 1.0, 0.0);
    }
    i64 minXY() const
    {
        return cfg.z_over_xy ? cfg.xy_min : cfg.xy;
    }
    i64 delta() const
    {
        return cfg.z_over_xy ? std::max<i64>(0, std::max(cfg.xy, cfg.xy_min) - cfg.xy_min) : 0;
    }
};
struct Query
{
    char kind; // C collision, H holefree, F/S/V/K avoidance fast, slow, fast-safe, collision, P placeable, W wall, A accumulated
    i64 r;
    int l;
    bool to_model, min;
    std::string str() const
    {
        return std::string(1, kind) + std::to_string(r) + "@" + std::to_string(l) + (to_model ? "m" : "") + (min ? "n" : "");
    }
};
static const Shape& ask(TreeModelVolumes& v, const Query& q)
{
    switch (q.kind)
    {
    case 'C':
        return v.getCollision(q.r, q.l, q.min);
    case 'H':
        return v.getCollisionHolefree(q.r, q.l, q.min);
    case 'F':
        return v.getAvoidance(q.r, q.l, AvoidanceType::FAST, q.to_model, q.min);
    case 'S':
        return v.getAvoidance(q.r, q.l, AvoidanceType::SLOW, q.to_model, q.min);
    case 'V':
        return v.getAvoidance(q.r, q.l, AvoidanceType::FAST_SAFE, q.to_model, q.min);
    case 'K':
        return v.getAvoidance(q.r, q.l, AvoidanceType::COLLISION, true, q.min);
    case 'P':
        return v.getPlaceableAreas(q.r, q.l);
    case 'W':
        return v.getWallRestriction(q.r, q.l, q.min);
    default:
        return v.getAccumulatedPlaceable0(q.l);
    }
}
// two areas are the same up to a sliver of two microns
static bool same(const Shape& a, const Shape& b)
{
    if (fromShape(a) == fromShape(b))
        return true;
    const Shape d = a.xorPolygons(b);
    return d.offset(-2).empty();
}
static std::vector<Query> alphabet(bool big)
{
    std::vector<Query> q;
    for (int l : { 1, 3 })
        for (i64 r : big ? std::vector<i64>{ 0, 400, 700, 1600 } : std::vector<i64>{ 0, 500 })
            for (bool min : { false, true })
            {
                q.push_back({ 'C', r, l, false, min });
                if (r == 0)
                    continue;
                q.push_back({ 'F', r, l, false, min });
                q.push_back({ 'W', r, l, false, min });
                if (min || big)
                {
                    q.push_back({ 'S', r, l, false, min });
                    q.push_back({ 'F', r, l, true, min });
                    q.push_back({ 'V', r, l, false, min });
                    q.push_back({ 'K', r, l, true, min });
                    q.push_back({ 'H', r, l, false, min });
                }
                if (min)
                    q.push_back({ 'P', r, l, false, false });
            }
    for (int l : { 0, 1, 2, 4 })
    {
        if (l == 0)
        {
            q.push_back({ 'A', 0, 0, false, false });
            continue;
        }
        q.push_back({ 'A', 0, l, false, false });
        q.push_back({ 'P', 0, l, false, false });
    }
    q.push_back({ 'C', 1000, 4, false, false });
    q.push_back({ 'S', 400, 4, true, true });
    q.push_back({ 'V', 400, 4, true, true });
    return q;
}

struct Area
{
    Paths ps;
    Area() = default;
    Area(const Shape& s)
        : ps(fromShape(s))
    {
    }
    bool has(P p) const
    {
        return evenOdd(p, ps);
    }
    double dist(P p) const
    {
        return distBorder(p, ps);
    }
    double to(P p) const
    {
        return has(p) ? 0 : dist(p);
    }
};
static std::string at(P p)
{
    return "(" + std::to_string(p.x) + "," + std::to_string(p.y) + ")";
}

// ---- each area against its definition
static void judge(const Rig& g)
{
    TreeModelVolumes v = g.make();
    constexpr i64 STEP = 300;
    constexpr int N = M / STEP;
    static std::vector<P> pts;
    if (pts.empty())
        for (int x = 0; x < N; x++)
            for (int y = 0; y < N; y++)
                pts.push_back({ x * STEP + 150, y * STEP + 150 });
    const size_t n = pts.size();
    const i64 lh = 200, zt = (g.cfg.z_top + lh - 1) / lh, zb = (g.cfg.z_bottom + lh - 1) / lh, xy = g.minXY();
    constexpr double TOL = 25; // simplification, roundings
    // distances to every layer, once
    std::vector<std::vector<float>> dm(L, std::vector<float>(n)), db(L, std::vector<float>(n)), in(L, std::vector<float>(n));
    for (int l = 0; l < L; l++)
    {
        const Area m(g.model[l]), b(g.blocker[l]);
        for (size_t i = 0; i < n; i++)
        {
            const double d = m.dist(pts[i]);
            const bool h = m.has(pts[i]);
            dm[l][i] = h ? 0 : d;
            in[l][i] = h ? d : 0;
            db[l][i] = b.to(pts[i]);
        }
    }
    const i64 delta = g.delta();
    auto effective = [&](i64 r, bool min)
    {
        const i64 e = r + (min ? 0 : delta);
        if (r == 0)
            return e;
        const i64 c = v.ceilRadius(r, min);
        return c;
    };
    for (i64 r = 0; r < 4000; r += 37)
        for (bool min : { false, true })
        {
            const i64 e = r + (min ? 0 : delta), c = v.ceilRadius(r, min), c2 = v.ceilRadius(r + 37, min);
            VH_CHECK(c >= e && c <= c2 && (e == 0 || v.ceilRadius(c, true) == c), "radius %lld (with distance %lld) is rounded up to %lld", r, e, c);
            VH_CHECK(v.getRadiusNextCeil(r, min) >= r, "the next radius from %lld is %lld", r, (i64)v.getRadiusNextCeil(r, min));
        }
    std::map<std::pair<i64, int>, std::vector<char>> coll; // by effective radius
    for (i64 r : { 0, 400, 900, 1600 })
        for (bool min : { false, true })
            for (int l = L - 1; l >= 0; l--)
            {
                const i64 R = effective(r, min);
                const Area a(v.getCollision(r, l, min));
                std::vector<char> inside(n);
                for (size_t i = 0; i < n; i++)
                {
                    inside[i] = a.has(pts[i]);
                    bool must = false, may = false;
                    auto add = [&](double d, double reach)
                    {
                        must |= d < reach - TOL;
                        may |= d < reach * 1.45 + TOL;
                    };
                    add(std::min({ pts[i].x, pts[i].y, M - pts[i].x, M - pts[i].y }), R + xy);
                    for (int k = std::max<int>(0, l - zb); k <= l; k++)
                        add(dm[k][i], R + xy);
                    for (int k = 1; k <= zt && l + k < L; k++)
                        add(dm[l + k][i], R + std::max(0.0, xy - (k - (zt == 1 ? 0.5 : 0)) * xy / zt));
                    add(db[l][i], R);
                    if ((must && ! inside[i]) || (! may && inside[i]))
                    {
                        vh::fail("collision of radius %lld (%lld) at layer %d: place %s is%s in it; distances to the layer %.0f and those below/above %.0f %.0f, xy %lld, layers above %lld below %lld", r, R, l,
                                 at(pts[i]).c_str(), inside[i] ? "" : " not", dm[l][i], dm[std::max(0, l - 1)][i], dm[std::min(L - 1, l + 1)][i], xy, zt, zb);
                        return;
                    }
                }
                coll[{ R, l }] = inside;
                vh::outcome(hashPaths(a.ps));
            }
    // bigger radii collide wherever smaller ones do
    for (auto& [ka, a] : coll)
        for (auto& [kb, b] : coll)
            if (ka.second == kb.second && ka.first < kb.first)
                for (size_t i = 0; i < n; i++)
                    if (a[i] && ! b[i])
                    {
                        vh::fail("place %s collides with radius %lld, but not with %lld, on layer %d", at(pts[i]).c_str(), ka.first, kb.first, ka.second);
                        return;
                    }
    // walls
    for (i64 r : { 400, 900 })
        for (bool min : { false, true })
            for (int l = 1; l < L; l++)
            {
                const i64 R = v.ceilRadius(r, true);
                const Shape expect = v.getCollision(0, l, min).intersection(v.getCollision(R, l - 1, true));
                const Shape& is = v.getWallRestriction(r, l, min);
                VH_CHECK(expect.xorPolygons(is).offset(-15).empty(), "the wall restriction of radius %lld at layer %d differs from what is blocked on both layers", r, l);
            }
    // avoidance: what can't come down in steps of at most the allowed move without touching a collision
    for (i64 r : { 400, 900 })
        for (int type = 0; type < 3; type++)
            for (bool to_model : { false, true })
            {
                if (to_model && ! g.cfg.everywhere)
                    continue;
                const i64 R = v.ceilRadius(r, true);
                const AvoidanceType t = type == 0 ? AvoidanceType::FAST : type == 1 ? AvoidanceType::SLOW : AvoidanceType::FAST_SAFE;
                const bool holefree = (type == 1 || type == 2) && R < 1000 + delta;
                const double move = std::max<i64>(0, (type == 1 ? g.cfg.slow : g.cfg.move) - 2);
                std::vector<char> blocked(n);
                std::vector<float> slot(n, 0); // distance to the next free place, which may lie between those looked at
                {
                    const Area a(v.getCollision(r, 0, true));
                    for (size_t i = 0; i < n; i++)
                        if ((blocked[i] = a.has(pts[i])))
                            slot[i] = a.dist(pts[i]);
                }
                for (int l = 1; l < L; l++)
                {
                    const Shape& av = v.getAvoidance(r, l, t, to_model, true);
                    const Area a(av);
                    const Area col(holefree ? v.getCollisionHolefree(R, l, true) : v.getCollision(R, l, true));
                    const Area place(to_model ? v.getPlaceableAreas(R, l) : Shape());
                    std::vector<char> now(n), c(n);
                    std::vector<float> dcol(n);
                    for (size_t i = 0; i < n; i++)
                    {
                        now[i] = a.has(pts[i]);
                        dcol[i] = col.dist(pts[i]);
                        c[i] = col.has(pts[i]);
                    }
                    // distance along free places from what was free on the layer below
                    std::vector<float> way(n, 1e9f);
                    using E = std::pair<float, int>;
                    std::priority_queue<E, std::vector<E>, std::greater<E>> q;
                    for (size_t i = 0; i < n; i++)
                        if (slot[i] < std::max<double>(STEP, std::min(move, 1.9 * std::max(R, xy)) + TOL)) // the first step starts where it is free below
                        {
                            way[i] = slot[i];
                            q.push({ way[i], (int)i });
                        }
                    while (! q.empty())
                    {
                        auto [d, i] = q.top();
                        q.pop();
                        if (d > way[i] || d > move + 3000)
                            continue;
                        const int x = i / N, y = i % N;
                        for (int dx = -2; dx <= 2; dx++)
                            for (int dy = -2; dy <= 2; dy++)
                            {
                                if (x + dx < 0 || y + dy < 0 || x + dx >= N || y + dy >= N || (! dx && ! dy))
                                    continue;
                                const int j = (x + dx) * N + y + dy;
                                if (c[j] && dcol[j] > STEP) // somewhat generous at borders
                                    continue;
                                const float d2 = d + (float)(STEP * std::sqrt((double)(dx * dx + dy * dy)));
                                if (d2 < way[j])
                                {
                                    way[j] = d2;
                                    q.push({ d2, j });
                                }
                            }
                    }
                    for (size_t i = 0; i < n; i++)
                    {
                        const bool can_rest = to_model && place.has(pts[i]);
                        // free though there is no way down
                        if (! now[i] && ! can_rest)
                        {
                            if (c[i] && dcol[i] > TOL)
                            {
                                vh::fail("avoidance type %d of radius %lld at layer %d: place %s collides but isn't avoided", type, r, l, at(pts[i]).c_str());
                                return;
                            }
                            if (way[i] > move * 1.03 + 2.9 * STEP && ! (to_model && place.dist(pts[i]) < TOL))
                            {
                                vh::fail("avoidance type %d of radius %lld at layer %d: place %s isn't avoided, but the next free place of the layer below is %.0f away, the allowed move is %.0f", type, r, l, at(pts[i]).c_str(), way[i], move);
                                return;
                            }
                        }
                        // avoided though a short step leads to a free place (one that is free all around)
                        if (now[i] && ! (c[i] || dcol[i] < TOL))
                        {
                            if (can_rest && place.dist(pts[i]) > TOL)
                            {
                                vh::fail("avoidance type %d of radius %lld at layer %d: place %s is avoided, though a branch may rest there", type, r, l, at(pts[i]).c_str());
                                return;
                            }
                            if (! blocked[i] && move >= 2 * TOL)
                            {
                                vh::fail("avoidance type %d of radius %lld at layer %d: place %s is avoided, though it is free itself on the layer below", type, r, l, at(pts[i]).c_str());
                                return;
                            }
                            const int x = i / N, y = i % N;
                            const int reach = (int)((move - TOL) / STEP);
                            for (int s = 1; s <= reach && now[i]; s++) // straight along the axes, clear of collisions
                                for (int dir = 0; dir < 4; dir++)
                                {
                                    const int X = x + (dir == 0 ? s : dir == 1 ? -s : 0), Y = y + (dir == 2 ? s : dir == 3 ? -s : 0);
                                    if (X < 0 || Y < 0 || X >= N || Y >= N || blocked[X * N + Y])
                                        continue;
                                    bool clear = true;
                                    for (int k = 0; k <= s && clear; k++)
                                    {
                                        const int j = (x + (X - x) * k / s) * N + y + (Y - y) * k / s;
                                        clear &= ! c[j] && dcol[j] > STEP;
                                    }
                                    if (clear)
                                    {
                                        vh::fail("avoidance type %d of radius %lld at layer %d: place %s is avoided, though %s is free on the layer below and %lld away (move %.0f)", type, r, l, at(pts[i]).c_str(),
                                                 at(pts[X * N + Y]).c_str(), (i64)s * STEP, move);
                                        return;
                                    }
                                }
                        }
                    }
                    blocked = now;
                    for (size_t i = 0; i < n; i++)
                        slot[i] = now[i] ? a.dist(pts[i]) : 0;
                    vh::outcome(hashPaths(a.ps));
                }
            }
    // where branches may rest: on the model, the bottom distance above it, with room around
    for (i64 r : { 0, 400, 1600 })
        for (int l = 1; l < L; l++)
        {
            const i64 R = r == 0 ? 0 : v.ceilRadius(r, true);
            if (r == 0 && l > 3)
                continue;
            const Area a(v.getPlaceableAreas(r, l));
            const int on = l - 1 - (int)zb;
            for (size_t i = 0; i < n; i++)
            {
                const bool has = a.has(pts[i]);
                bool may = false, must = false;
                if (on >= 0)
                {
                    const double reach = r == 0 ? (double)xy : 0.0; // radius 0 includes the distance
                    may = in[on][i] > 0 || dm[on][i] < reach * 1.45 + TOL;
                    must = in[on][i] > R + 2 * (xy + delta) * 1.45 + 50;
                    for (int k = on + 1; k <= l; k++)
                        must &= dm[k][i] > (R + 3 * (xy + delta)) * 1.45 + 50;
                    for (int k = 0; k < L; k++)
                        must &= g.blocker[k].empty();
                    const i64 edge = std::min({ pts[i].x, pts[i].y, M - pts[i].x, M - pts[i].y });
                    must &= edge > (R + 3 * (xy + delta)) * 1.45 + 50;
                    if (may && has && r > 0)
                        for (int k = on + 1; k < l; k++)
                            may &= dm[k][i] > R - TOL || in[on][i] > 0;
                }
                // the border of the machine counts as a model without height, so nothing rests there
                if ((has && ! may) || (! has && must))
                {
                    const i64 edge = std::min({ pts[i].x, pts[i].y, M - pts[i].x, M - pts[i].y });
                    if (has && edge < (R + xy + delta) * 1.45 + 50)
                        continue;
                    vh::fail("placeable area of radius %lld at layer %d: place %s is%s in it; it is %.0f inside and %.0f outside of layer %d", r, l, at(pts[i]).c_str(), has ? "" : " not", on >= 0 ? in[on][i] : -1.0,
                             on >= 0 ? dm[on][i] : -1.0, on);
                    return;
                }
            }
            vh::outcome(hashPaths(a.ps));
        }
    // everything that can be reached from the plate, or from where branches rest, without a blocker in the way
    for (int l = 1; l < L; l++)
    {
        const Area a(v.getAccumulatedPlaceable0(l));
        const double d = xy + delta;
        std::vector<Area> rest;
        for (int k = 1; k <= l; k++)
            rest.emplace_back(v.getPlaceableAreas(0, k));
        for (size_t i = 0; i < n; i++)
        {
            const i64 edge = std::min({ pts[i].x, pts[i].y, M - pts[i].x, M - pts[i].y });
            double near = 1e9; // to a blocker
            int last = -1;
            for (int k = 1; k <= l; k++)
                if (! g.blocker[k].empty())
                {
                    near = std::min<double>(near, db[k][i]);
                    if (db[k][i] == 0)
                        last = k;
                }
            const bool has = a.has(pts[i]);
            if (edge > d * 1.45 + TOL && near > d * 1.45 + TOL && ! has)
            {
                vh::fail("place %s on layer %d is nowhere near a blocker (%.0f), but counts as out of reach", at(pts[i]).c_str(), l, near);
                return;
            }
            bool rests = false;
            for (int k = last + 1; last > 0 && k <= l; k++)
                rests |= rest[k - 1].to(pts[i]) < 60;
            if (has && last > 0 && (last == l || ! rests))
            {
                vh::fail("place %s on layer %d is over the blocker on layer %d, but counts as within reach", at(pts[i]).c_str(), l, last);
                return;
            }
        }
    }
}

static void orders(const Rig& g, const std::vector<Query>& q, const std::vector<Shape>& fresh, const std::vector<size_t>& seq, bool pre)
{
    TreeModelVolumes v = g.make();
    for (size_t i : seq)
    {
        const Shape& s = ask(v, q[i]);
        vh::outcome(hashPaths(fromShape(s)));
        vh::trans();
        if (! same(s, fresh[i]))
        {
            const Shape d = s.xorPolygons(fresh[i]);
            vh::fail("%s answered differently than when asked first: area %.3f mm2 instead of %.3f, e.g. at %s", q[i].str().c_str(), s.area() / 1e6, fresh[i].area() / 1e6, d.empty() ? "?" : at({ d[0][0].X, d[0][0].Y }).c_str());
            return;
        }
    }
}
static void precalculated(const Rig& g, const std::vector<Query>& q, int top)
{
    TreeModelVolumes v = g.make();
    v.precalculate(top);
    for (const Query& x : q)
    {
        TreeModelVolumes f = g.make();
        Query y = x;
        // precalculation may leave out radii, so that a bigger one answers
        if (x.r != 0 && x.kind != 'A' && x.kind != 'H')
        {
            const i64 e = x.kind == 'P' || x.kind == 'W' ? v.ceilRadius(x.r, true) : v.ceilRadius(x.r, x.min);
            y.r = x.kind == 'P' || x.kind == 'W' || x.min ? e : e - g.delta();
            if (f.ceilRadius(y.r, x.kind == 'P' || x.kind == 'W' || x.min) != e)
            {
                vh::note("radius of its own");
                continue;
            }
        }
        if (! g.cfg.everywhere && (x.to_model || x.kind == 'P' || x.kind == 'A' || x.kind == 'K'))
            continue; // nothing may rest on models, so nothing about that is prepared (nor asked)
        if (x.kind == 'H')
            continue; // depends on the radius of the biggest collision, which may differ as well
        if (x.kind == 'V' || x.kind == 'S')
            if (v.ceilRadius(1000, false) != f.ceilRadius(1000, false))
                continue;
        const Shape &a = ask(v, x), &b = ask(f, y);
        vh::trans();
        if (! same(a, b))
        {
            vh::fail("%s (radius %lld) is different after precalculating up to layer %d: area %.3f mm2 instead of %.3f", x.str().c_str(), y.r, top, a.area() / 1e6, b.area() / 1e6);
            return;
        }
    }
}

static void explore()
{
    const bool T = vh::thorough();
#ifdef FREE
    // many threads ask the same object (watched by a race detector)
    for (int rep = 0; rep < (T ? 60 : 6); rep++)
        if (vh::begin("threads %d", rep))
        {
            Rig g({ 1, 2, 4, 5, 1 }, CFGS[rep % 5], rep % 3 == 0 ? 2 : -1);
            auto q = alphabet(false);
            TreeModelVolumes v = g.make();
            std::vector<std::thread> ts;
            for (int t = 0; t < 4; t++)
                ts.emplace_back(
                    [&, t]
                    {
                        for (size_t i = 0; i < q.size(); i++)
                            ask(v, q[(i * 7 + t * 11 + rep) % q.size()]);
                    });
            for (auto& t : ts)
                t.join();
            for (auto& x : q)
            {
                TreeModelVolumes f = g.make();
                VH_CHECK(same(ask(v, x), ask(f, x)), "%s differs after queries of several threads", x.str().c_str());
            }
            vh::trans(q.size() * 4);
            vh::state(rep);
        }
    return;
#endif
    // definitions, on all stacks of the alphabet
    const int K = 8;
    for (int s = 0; s < K * K * K * K; s++)
        for (size_t c = 0; c < 5; c++)
        {
            if (T ? (s + c) % 5 : (s * 5 + c * 13) % 199)
                continue;
            for (int b : { -1, 2 })
                if (vh::begin("stack %d cfg%zu blocker%d", s, c, b))
                {
                    Rig g({ s % K, s / K % K, s / K / K % K, s / K / K / K, s % 3 ? s / 7 % K : 0 }, CFGS[c], b);
                    judge(g);
                    vh::state(vh::mix(s, c * 2 + (b > 0)));
                    vh::trans(100);
                }
        }
    // all pairs (and of a smaller alphabet all triples) of queries
    static const std::vector<std::vector<int>> stacks = { { 1, 5, 2, 1, 0 }, { 3, 4, 3, 0, 1 }, { 5, 5, 6, 2, 2 }, { 7, 0, 7, 5, 0 }, { 2, 2, 1, 6, 4 } };
    for (size_t si = 0; si < stacks.size(); si++)
        for (size_t c = 0; c < 5; c++)
            for (int b : { -1, 2, 0 })
            {
                const bool few = ! T && (si + c + (b + 1)) % 5; // fewer histories
                if (few && (si + c) % 2)
                    continue;
                std::unique_ptr<Rig> g;
                for (int big = 0; big < 2; big++)
                {
                    const std::vector<Query> q = alphabet(big);
                    std::vector<Shape> fresh;
                    auto prepare = [&]
                    {
                        if (! g)
                            g = std::make_unique<Rig>(stacks[si], CFGS[c], b);
                        if (fresh.empty())
                            for (const Query& x : q)
                            {
                                TreeModelVolumes v = g->make();
                                fresh.push_back(ask(v, x));
                            }
                    };
                    if (big)
                        for (size_t i = 0; i < q.size(); i++)
                        {
                            if (! T && (few || i % 7 || b > 0))
                                continue;
                            if (! vh::begin("pairs stack%zu cfg%zu blocker%d %s", si, c, b, q[i].str().c_str()))
                                continue;
                            prepare();
                            for (size_t j = 0; j < q.size(); j++)
                            {
                                vh::state(vh::mix(si * 100 + c * 10 + b, i * 1000 + j));
                                orders(*g, q, fresh, { i, j, i }, false);
                            }
                        }
                    else
                        for (size_t i = 0; i < q.size(); i++)
                            for (size_t j = 0; j < q.size(); j++)
                            {
                                if (! T && (few || (i + j) % 13 || si % 2))
                                    continue;
                                if (! vh::begin("triples stack%zu cfg%zu blocker%d %s %s", si, c, b, q[i].str().c_str(), q[j].str().c_str()))
                                    continue;
                                prepare();
                                for (size_t k = 0; k < q.size(); k++)
                                {
                                    vh::state(vh::mix(si * 100 + c * 10 + b, (i * 1000 + j) * 1000 + k + 7));
                                    orders(*g, q, fresh, { i, j, k }, false);
                                }
                            }
                }
                for (int top = 1; top < L; top++)
                    if (vh::begin("precalculated stack%zu cfg%zu blocker%d top%d", si, c, b, top))
                    {
                        Rig r(stacks[si], CFGS[c], b);
                        precalculated(r, alphabet(true), top);
                        vh::state(vh::mix(si * 100 + c * 10 + b, top));
                    }
            }
}
int main(int argc, char** argv)
{
    spdlog::set_level(getenv("VH_LOG") ? spdlog::level::err : spdlog::level::off);
    return vh::main_(argc, argv, explore, 1);
}
