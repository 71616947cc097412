// Layers of several meshes (drawn as images of cells) taken through the steps that shape them after slicing: carving
// overlapping meshes, overlaps, cutting and infill meshes (C34), printable overhangs (C40) and molds (C44).
// The oracle works on cells and distances; a place is judged at sample points that are clear of every border.
#include "ConicalOverhang.h"
#include "FffPolygonGenerator.h"
#include "Mold.h"
#include "mesh.h"
#include "multiVolumes.h"
#include "shapes.h"
#include "slicer.h"
#include "utils/math.h"
#include "vh.h"
#include "world.h"

#ifndef CHECK
#define CHECK "C34"
#endif

using namespace cura;
using namespace vs;

constexpr i64 U = 1200; // a cell
const Embed FLAT{ U, 0, 0, U, 0, 0, "id" };

struct Rig
{
    Scene* scene;
    std::vector<Mesh>* meshes;
    std::vector<Slicer*> slicers;
    std::vector<Settings> base; // of a mesh without settings of its own
    size_t layers = 0;
    void make(size_t n, size_t nlayers)
    {
        for (Slicer* s : slicers)
            delete s;
        slicers.clear();
        scene = &world::fresh(1, 1);
        meshes = &scene->mesh_groups[0].meshes;
        scene->mesh_groups[0].settings.setParent(&scene->settings);
        meshes->reserve(n);
        for (size_t i = 0; i < n; i++)
            meshes->emplace_back(scene->mesh_groups[0].settings);
        layers = nlayers;
        for (size_t i = 0; i < n; i++)
            slicers.push_back(new Slicer(&(*meshes)[i], 200, nlayers, false, nullptr, SlicingTolerance::MIDDLE, 200));
    }
    void set(size_t m, const char* k, const std::string& v)
    {
        (*meshes)[m].settings_.add(k, v);
    }
    void group(const char* k, const std::string& v)
    {
        scene->mesh_groups[0].settings.add(k, v);
    }
    // the box around all layers of a mesh; none: the whole plane is assumed
    void box(size_t m)
    {
        AABB3D& b = (*meshes)[m].aabb_;
        b = AABB3D();
        for (auto& l : slicers[m]->layers)
            for (auto& p : l.polygons_)
                for (auto& q : p)
                    b.include(Point3LL(q.X, q.Y, 0));
        if (b.min_.x_ <= b.max_.x_)
            b.include(Point3LL(b.min_.x_, b.min_.y_, 10000));
    }
};
static Rig R;

struct Probe
{
    P p;
    int sub; // which sample of the cell
};
// sample points of the half cells of a w x h grid with a margin of one cell around: four by four per cell
static std::vector<P> samples(int w, int h, const std::vector<i64>& at)
{
    std::vector<P> r;
    for (int x = -1; x <= w; x++)
        for (int y = -1; y <= h; y++)
            for (i64 a : at)
                for (i64 b : at)
                    r.push_back({ x * U + a, y * U + b });
    return r;
}
static bool in(P p, const Shape& s)
{
    return evenOdd(p, fromShape(s));
}
struct Area // an outline set with its exact inside test
{
    Paths ps;
    Area() = default;
    Area(const Shape& s)
        : ps(fromShape(s))
    {
    }
    bool has(P p) const
    {
        return evenOdd(p, ps);
    }
    double dist(P p) const // to the border
    {
        return distBorder(p, ps);
    }
    double to(P p) const // to the area
    {
        return has(p) ? 0 : dist(p);
    }
    double depth(P p) const // from the outside
    {
        return has(p) ? dist(p) : 0;
    }
};
static Shape image(const Complex& c, uint64_t m, P shift = { 0, 0 })
{
    Embed e = FLAT;
    e.tx = shift.x;
    e.ty = shift.y;
    return toShape(trace(c, m, e, 0));
}
static std::string at(P p)
{
    return "(" + std::to_string(p.x) + "," + std::to_string(p.y) + ")";
}

// ---------------------------------------------------------------- C34
enum Kind
{
    MODEL,
    INFILL,
    SUPPORT,
    CUTTING,
    ANTI,
    SURFACE,
    KINDS
};
static const char* kind_key[] = { "", "infill_mesh", "support_mesh", "cutting_mesh", "anti_overhang_mesh", "" };
static void setKind(size_t m, int k)
{
    for (int i = 1; i < 5; i++)
        R.set(m, kind_key[i], i == k ? "true" : "false");
    R.set(m, "magic_mesh_surface_mode", k == SURFACE ? "surface" : "normal");
}

static void carve(const char* what, int w, int h, const std::vector<uint64_t>& masks /* mesh-major: mesh * layers + layer */, size_t n, const std::vector<int>& order, const std::vector<int>& kind, bool alternate)
{
    const Complex c = quads(w, h);
    const size_t L = R.layers;
    R.group("alternate_carve_order", alternate ? "true" : "false");
    for (size_t m = 0; m < n; m++)
    {
        R.set(m, "infill_mesh_order", std::to_string(order[m]));
        setKind(m, kind[m]);
        for (size_t l = 0; l < L; l++)
            R.slicers[m]->layers[l].polygons_ = image(c, masks[m * L + l]);
        R.box(m);
    }
    std::vector<Slicer*> vols = R.slicers;
    carveMultipleVolumes(vols);
    VH_CHECK(vols == R.slicers, "%s: the list of meshes was reordered", what);
    // who gets each cell
    std::vector<size_t> rank(n);
    for (size_t i = 0; i < n; i++)
        rank[i] = i;
    std::stable_sort(rank.begin(), rank.end(), [&](size_t a, size_t b) { return order[a] < order[b]; });
    for (size_t l = 0; l < L; l++)
    {
        for (size_t cell = 0; cell < c.cells.size(); cell++)
        {
            // the models at this place, in rank; equal ranks may alternate
            std::vector<size_t> here;
            for (size_t i : rank)
                if (kind[i] == MODEL && (masks[i * L + l] >> cell & 1))
                    here.push_back(i);
            size_t owner = SIZE_MAX;
            if (! here.empty())
            {
                owner = here[0];
                if (alternate && l % 2 == 0)
                    for (size_t i : here)
                        if (order[i] == order[here[0]])
                            owner = i; // the last of the equals
            }
            const P p = center(c, cell, FLAT);
            for (size_t m = 0; m < n; m++)
            {
                const bool had = masks[m * L + l] >> cell & 1;
                const bool expect = kind[m] == MODEL ? owner == m : had;
                if (in(p, R.slicers[m]->layers[l].polygons_) != expect)
                {
                    vh::fail("%s: layer %zu place %s: mesh %zu (order %d, kind %d) %s it, but it belongs to mesh %d", what, l, at(p).c_str(), m, order[m], kind[m], expect ? "lost" : "prints", (int)owner);
                    return;
                }
            }
        }
        for (size_t m = 0; m < n; m++)
            vh::outcome(vh::mix(m, hashPaths(fromShape(R.slicers[m]->layers[l].polygons_))));
    }
    vh::state(vh::mix(vh::hash(masks.data(), masks.size() * 8), vh::hash(order.data(), order.size() * 4)));
    vh::trans(n * L);
}

static void overlap(int w, int h, const std::vector<uint64_t>& masks, const std::vector<int>& kind, const std::vector<i64>& ov, bool union_all, bool shifted)
{
    const Complex c = quads(w, h);
    const size_t n = masks.size();
    std::vector<Area> before(n);
    static const std::vector<P> pts = samples(w, h, { 8, 60, 110, 260, 600, 940, 1090, 1140, 1192 });
    for (size_t m = 0; m < n; m++)
    {
        R.set(m, "meshfix_union_all", union_all ? "true" : "false");
        R.set(m, "multiple_mesh_overlap", std::to_string(ov[m] / 1000.0));
        setKind(m, kind[m]);
        Shape s = image(c, masks[m], { m && shifted ? 30 : 0, 0 });
        R.slicers[m]->layers[0].polygons_ = s;
        before[m] = Area(s);
        R.box(m);
    }
    std::vector<Slicer*> vols = R.slicers;
    generateMultipleVolumesOverlap(vols);
    std::vector<Area> now = before;
    for (size_t m = 0; m < n; m++)
    {
        const Area after(R.slicers[m]->layers[0].polygons_);
        const bool takes = kind[m] == MODEL || kind[m] == SURFACE;
        const bool changes = takes && ov[m] != 0;
        for (P p : pts)
        {
            const double own = before[m].to(p), half = ov[m] / 2.0;
            double other = 1e9;
            for (size_t o = 0; o < n; o++)
                if (o != m && (kind[o] == MODEL || kind[o] == SURFACE))
                    other = std::min(other, now[o].to(p)); // as the step found it
            const bool has = after.has(p);
            bool must, may;
            must = own == 0 || (changes && own < half - 3 && other == 0);
            may = own == 0 || (changes && own < half * 1.5 + 3 && other < 20 * 1.5 + 3);
            if ((has && ! may) || (! has && must))
            {
                vh::fail("place %s: mesh %zu %s it: %.0f from its own area, %.0f from the others', overlap %lld", at(p).c_str(), m, has ? "grew into" : "lacks", own, other, ov[m]);
                return;
            }
        }
        now[m] = after;
        vh::outcome(hashPaths(after.ps));
    }
    vh::state(vh::mix(vh::hash(masks.data(), masks.size() * 8), vh::hash(ov.data(), ov.size() * 8)));
    vh::trans(n);
}

// cutting meshes: kind CUTTING with mode 0 normal, 1 surface, 2 both; x: changes the extruder
struct Cutter
{
    int kind, mode, x;
};
static void cutting(int w, int h, const std::vector<uint64_t>& masks, const std::vector<Cutter>& k, const char* what)
{
    const Complex c = quads(w, h);
    const size_t n = masks.size();
    constexpr i64 LW = 400;
    static const std::vector<P> pts = samples(w, h, { 120, 300, 480, 720, 900, 1080 });
    std::vector<Shape> shapes(n);
    std::vector<Paths> lines(n); // open lines
    for (size_t m = 0; m < n; m++)
    {
        setKind(m, k[m].kind);
        R.set(m, "magic_mesh_surface_mode", k[m].mode == 0 ? "normal" : k[m].mode == 1 ? "surface" : "both");
        R.set(m, "wall_line_width_0", "0.4");
        (*R.meshes)[m].settings_.remove("extruder_nr");
        if (k[m].x)
            R.set(m, "extruder_nr", "0");
        // cutting meshes are off the grid of the others by half a cell, and off each other by a bit more
        const P shift = k[m].kind == CUTTING ? P{ U / 2, U / 2 } : P{ 0, 0 };
        shapes[m] = image(c, masks[m], shift);
        R.slicers[m]->layers[0].polygons_ = shapes[m];
        R.slicers[m]->layers[0].open_polylines_.clear();
        if (k[m].kind == CUTTING && k[m].mode == 2)
        { // a loose line across everything
            OpenPolyline l;
            l.push_back(Point2LL(-U / 2, U / 2 * 3));
            l.push_back(Point2LL(w * U + U / 2, U / 2 * 3));
            R.slicers[m]->layers[0].open_polylines_.push_back(l);
            lines[m].push_back(fromLine(l));
        }
        if (k[m].kind == CUTTING && k[m].mode == 1)
            for (auto& p : fromShape(shapes[m]))
            {
                lines[m].push_back(p);
                lines[m].back().push_back(p[0]);
            }
        R.box(m);
    }
    MultiVolumes::carveCuttingMeshes(R.slicers, *R.meshes);
    // reference at sample points
    auto isPrinted = [&](size_t m, size_t step) // when cutter `step` is handled
    { return k[m].kind == MODEL || k[m].kind == INFILL || k[m].kind == SUPPORT || k[m].kind == SURFACE || (k[m].kind == CUTTING && k[m].x && m < step); };
    std::vector<Area> orig(n), after(n);
    for (size_t m = 0; m < n; m++)
    {
        orig[m] = Area(shapes[m]);
        after[m] = Area(R.slicers[m]->layers[0].polygons_);
        vh::outcome(hashPaths(after[m].ps));
    }
    for (P p : pts)
    {
        std::vector<int> has(n); // 1 yes, 0 no, -1 border
        double border = 1e9;
        for (size_t m = 0; m < n; m++)
        {
            has[m] = orig[m].has(p);
            border = std::min(border, orig[m].dist(p));
        }
        if (border < 10)
            continue;
        bool any = false, unsure = false;
        for (size_t m = 0; m < n; m++)
            any |= has[m] && k[m].kind != CUTTING && k[m].kind != ANTI;
        bool x_any = false;
        for (size_t m = 0; m < n; m++)
            x_any |= k[m].kind == CUTTING && k[m].x;
        for (size_t s = 0; s < n && ! unsure; s++)
        {
            if (k[s].kind != CUTTING)
                continue;
            bool area = k[s].mode == 1 ? false : has[s]; // the place the cutter takes from the others
            if (k[s].mode != 0)
            {
                double d = 1e9;
                for (auto& l : lines[s])
                    for (size_t i = 0; i + 1 < l.size(); i++)
                        d = std::min(d, dist(p, l[i], l[i + 1]));
                if (d > LW / 2 - 3 && d < LW / 2 * 1.5 + 3)
                    unsure = true;
                area |= d <= LW / 2;
            }
            if (k[s].x)
                area = area && any;
            bool got = false;
            for (size_t m = 0; m < n; m++)
            {
                if (! isPrinted(m, s) || k[m].kind == SUPPORT)
                    continue;
                got |= has[m] && has[s] && k[s].mode != 1;
                if (area)
                    has[m] = 0;
            }
            has[s] = got;
        }
        if (unsure)
            continue;
        for (size_t m = 0; m < n; m++)
            if (! (k[m].kind == CUTTING && k[m].mode == 1) /* its polygons are closed lines */ && after[m].has(p) != (has[m] == 1))
            {
                vh::fail("%s: place %s: mesh %zu (kind %d mode %d extruder %d) %s it", what, at(p).c_str(), m, k[m].kind, k[m].mode, k[m].x, has[m] ? "lost" : "has");
                return;
            }
    }
    // cutters that draw lines keep exactly the stretches within the meshes they cut
    for (size_t m = 0; m < n; m++)
    {
        if (k[m].kind != CUTTING || k[m].mode == 0 || k[m].x)
            continue;
        size_t cutters = 0;
        for (auto& q : k)
            cutters += q.kind == CUTTING;
        if (cutters > 1)
            continue; // judged by places only
        double expect = 0, got = 0;
        // lines run along the middle of cells, so that a half cell is inside or outside of a mesh; each mesh cut counts
        for (auto& l : lines[m])
            for (size_t i = 0; i + 1 < l.size(); i++)
            {
                const P a = l[i], b = l[i + 1];
                const i64 len = std::abs(a.x - b.x) + std::abs(a.y - b.y), steps = len / (U / 2);
                for (i64 s = 0; s < steps; s++)
                {
                    const P mid{ a.x + (b.x - a.x) * (2 * s + 1) / (2 * steps), a.y + (b.y - a.y) * (2 * s + 1) / (2 * steps) };
                    for (size_t o = 0; o < n; o++)
                        if (o != m && isPrinted(o, m) && k[o].kind != SUPPORT && orig[o].has(mid))
                        {
                            expect += U / 2;
                            break; // judged as a union below
                        }
                }
            }
        std::vector<std::pair<P, P>> segs;
        for (auto& l : R.slicers[m]->layers[0].open_polylines_)
            for (size_t i = 0; i + 1 < l.size(); i++)
                segs.push_back({ { l[i].X, l[i].Y }, { l[i + 1].X, l[i + 1].Y } });
        for (auto& s : segs)
            got += std::hypot(s.first.x - s.second.x, s.first.y - s.second.y);
        if (k[m].mode == 1)
            for (auto& p : after[m].ps) // closed again
                for (size_t i = 0; i < p.size(); i++)
                    got += std::hypot(p[i].x - p[(i + 1) % p.size()].x, p[i].y - p[(i + 1) % p.size()].y);
        if (k[m].mode == 2)
            continue; // stitched lines may close into polygons; judged by places only
        VH_CHECK(std::abs(expect - got) <= 4 + 4 * (double)segs.size(), "%s: the cutting mesh draws %.0f of lines, %.0f lie in the meshes it cuts", what, got, expect);
    }
    vh::state(vh::mix(vh::hash(masks.data(), masks.size() * 8), vh::hash(k.data(), k.size() * sizeof(Cutter))));
    vh::trans(n);
}

// infill meshes: mesh 0.. with infill areas; every place of the infill belongs to exactly one mesh
static void infill(int w, int h, const std::vector<uint64_t>& masks, const std::vector<int>& is_infill, bool late)
{
    const Complex c = quads(w, h);
    const size_t n = masks.size();
    SliceDataStorage st;
    std::vector<size_t> order;
    for (size_t m = 0; m < n; m++)
    {
        setKind(m, is_infill[m] ? INFILL : MODEL);
        order.push_back(m);
        st.meshes.push_back(std::make_shared<SliceMeshStorage>(&(*R.meshes)[m], 1));
        for (SingleShape& s : image(c, masks[m]).splitIntoParts())
        {
            SliceLayer& l = st.meshes[m]->layers[0];
            l.parts.emplace_back();
            l.parts.back().outline = s;
            l.parts.back().boundaryBox.calculate(s);
            l.parts.back().infill_area = s;
        }
    }
    if (late) // the processing order isn't the order of the meshes
        std::reverse(order.begin(), order.end());
    FffPolygonGenerator gen;
    for (size_t i = 0; i < n; i++)
        if (is_infill[order[i]])
        {
            gen.processInfillMesh(st, i, order);
            for (SliceLayerPart& p : st.meshes[order[i]]->layers[0].parts)
                p.infill_area = p.outline; // as the walls (none) leave it
        }
    for (size_t cell = 0; cell < c.cells.size(); cell++)
    {
        const P p = center(c, cell, FLAT);
        // expectation: the areas one after the other
        std::vector<int> has(n, 0), outline(n, 0); // how many times; models may overlap
        for (size_t i = 0; i < n; i++)
        {
            const size_t m = order[i];
            const bool draws = masks[m] >> cell & 1;
            if (! is_infill[m])
            {
                has[m] = outline[m] = draws;
                continue;
            }
            int got = 0;
            for (size_t j = 0; j < i; j++)
                if (has[order[j]] && draws)
                {
                    got += has[order[j]];
                    has[order[j]] = 0;
                }
            has[m] = outline[m] = got;
        }
        for (size_t m = 0; m < n; m++)
        {
            int own = 0, drawn = 0;
            for (SliceLayerPart& q : st.meshes[m]->layers[0].parts)
            {
                own += in(p, q.getOwnInfillArea());
                drawn += in(p, q.outline);
            }
            if ((own > 0) != (has[m] > 0) || (drawn > 0) != (outline[m] > 0) || own > has[m] || drawn > outline[m])
            {
                vh::fail("place %s: mesh %zu (%s) has it %d times as infill and %d times in its outline, expected %d and %d", at(p).c_str(), m, is_infill[m] ? "infill mesh" : "model", own, drawn, has[m], outline[m]);
                return;
            }
        }
    }
    for (size_t m = 0; m < n; m++)
    {
        int top = -1;
        if (is_infill[m] && ! st.meshes[m]->layers[0].parts.empty())
            top = 0;
        VH_CHECK(! is_infill[m] || st.meshes[m]->layer_nr_max_filled_layer == top, "mesh %zu: its top layer is said to be %d", m, (int)st.meshes[m]->layer_nr_max_filled_layer);
        for (auto& q : st.meshes[m]->layers[0].parts)
            vh::outcome(vh::mix(hashPaths(fromShape(q.outline)), hashPaths(fromShape(q.getOwnInfillArea()))));
    }
    vh::state(vh::mix(vh::hash(masks.data(), masks.size() * 8), vh::hash(is_infill.data(), is_infill.size() * 4)));
    vh::trans(n);
}

static void exploreC34()
{
    const bool T = vh::thorough();
    // pairs on 3x2 cells, two layers
    R.make(2, 2);
    for (uint64_t a = 0; a < 64; a++)
        for (uint64_t b = 0; b < 64; b++)
            for (int o = 0; o < 3; o++)
                for (int alt = 0; alt < 2; alt++)
                    if (vh::begin("carve2 %llx %llx order%d alt%d", (unsigned long long)a, (unsigned long long)b, o, alt))
                        carve("pair", 3, 2, { a, b ^ 0x15, b, a }, 2, o == 0 ? std::vector{ 0, 0 } : o == 1 ? std::vector{ 0, 1 } : std::vector{ 5, -2 }, { MODEL, MODEL }, alt);
    for (int ka = 0; ka < KINDS; ka++)
        for (int kb = 0; kb < KINDS; kb++)
            for (uint64_t a = 1; a < 64; a += 3)
                for (uint64_t b = 1; b < 64; b += 2)
                    for (int o = 0; o < 4; o++)
                        if (vh::begin("kinds %llx %llx %d %d order%d", (unsigned long long)a, (unsigned long long)b, ka, kb, o))
                            carve("kinds", 3, 2, { a, b, b, a }, 2, o & 1 ? std::vector{ 1, 0 } : std::vector{ 0, 0 }, { ka, kb }, o & 2);
    // triples on 2x2 cells: all orders of three ranks
    R.make(3, 3);
    for (uint64_t m = 0; m < 4096; m++)
        for (int o = 0; o < 27; o++)
            for (int alt = 0; alt < 2; alt++)
            {
                if (! T && (m + o) % 3)
                    continue;
                const uint64_t a = m & 15, b = m >> 4 & 15, d = m >> 8;
                if (vh::begin("carve3 %llx order%d alt%d", (unsigned long long)m, o, alt))
                    carve("triple", 2, 2, { a, b, d, b, d, a, d, a, b }, 3, { o % 3, o / 3 % 3, o / 9 }, { MODEL, MODEL, MODEL }, alt);
            }
    for (int k = 0; k < 27; k++)
        for (uint64_t m = 0; m < 4096; m += 1)
        {
            static const int kk[] = { MODEL, SUPPORT, SURFACE };
            const uint64_t a = m & 15, b = m >> 4 & 15, d = m >> 8;
            if (! T && (m % 7 != 3))
                continue;
            if (vh::begin("kinds3 %llx %d", (unsigned long long)m, k))
                carve("kinds3", 2, 2, { a, b, d, b, d, a, d, a, b }, 3, { 0, 0, 0 }, { kk[k % 3], kk[k / 3 % 3], kk[k / 9] }, m & 1);
        }
    R.make(2, 1);
    for (uint64_t a = 0; a < 64; a++)
        for (uint64_t b = 0; b < 64; b++)
            for (int v = 0; v < 8; v++)
            {
                if (! T && (a + b + v) % 2)
                    continue;
                if (vh::begin("overlap2 %llx %llx v%d", (unsigned long long)a, (unsigned long long)b, v))
                    overlap(3, 2, { a, b }, { MODEL, MODEL }, v & 1 ? std::vector<i64>{ 300, 150 } : std::vector<i64>{ 150, 0 }, v & 2, v & 4);
            }
    for (int ka = 0; ka < KINDS; ka++)
        for (int kb = 0; kb < KINDS; kb++)
            for (uint64_t a = 1; a < 16; a++)
                for (uint64_t b = 1; b < 16; b++)
                    if (vh::begin("overlap kinds %llx %llx %d %d", (unsigned long long)a, (unsigned long long)b, ka, kb))
                        overlap(3, 2, { a, b }, { ka, kb }, { 300, 300 }, a & 1, false);
    R.make(3, 1);
    for (uint64_t m = 0; m < 4096; m++)
        if ((T || m % 2 == 0) && vh::begin("overlap3 %llx", (unsigned long long)m))
            overlap(2, 2, { m & 15, m >> 4 & 15, m >> 8 }, { MODEL, MODEL, MODEL }, { 300, 150, 300 }, m & 1, m & 16);
    // cutting meshes
    R.make(2, 1);
    for (uint64_t a = 0; a < 64; a++)
        for (uint64_t b = 0; b < 64; b++)
            for (int mode = 0; mode < 3; mode++)
                for (int x = 0; x < 2; x++)
                    for (int late = 0; late < 2; late++)
                    {
                        if (! T && (a + b + mode) % 2)
                            continue;
                        if (vh::begin("cut2 %llx %llx mode%d x%d late%d", (unsigned long long)a, (unsigned long long)b, mode, x, late))
                        {
                            std::vector<Cutter> k{ { MODEL, 0, 0 }, { CUTTING, mode, x } };
                            std::vector<uint64_t> ms{ a, b };
                            if (late)
                            {
                                std::swap(k[0], k[1]);
                                std::swap(ms[0], ms[1]);
                            }
                            cutting(3, 2, ms, k, "cut2");
                        }
                    }
    R.make(3, 1);
    for (uint64_t m = 0; m < 4096; m++)
    {
        const std::vector<uint64_t> ms{ m & 15, m >> 4 & 15, m >> 8 };
        static const std::vector<std::vector<Cutter>> combos = {
            { { MODEL, 0, 0 }, { INFILL, 0, 0 }, { CUTTING, 0, 0 } },  { { MODEL, 0, 0 }, { SUPPORT, 0, 0 }, { CUTTING, 0, 0 } }, { { MODEL, 0, 0 }, { CUTTING, 0, 0 }, { CUTTING, 0, 0 } },
            { { CUTTING, 0, 1 }, { MODEL, 0, 0 }, { CUTTING, 0, 0 } }, { { CUTTING, 0, 1 }, { CUTTING, 0, 1 }, { MODEL, 0, 0 } }, { { ANTI, 0, 0 }, { MODEL, 0, 0 }, { CUTTING, 0, 0 } },
            { { CUTTING, 0, 0 }, { MODEL, 0, 0 }, { CUTTING, 0, 1 } }, { { MODEL, 0, 0 }, { MODEL, 0, 0 }, { CUTTING, 1, 0 } }, { { MODEL, 0, 0 }, { MODEL, 0, 0 }, { CUTTING, 0, 1 } },
            { { MODEL, 0, 0 }, { ANTI, 0, 0 }, { CUTTING, 0, 1 } },
        };
        for (size_t k = 0; k < combos.size(); k++)
            if ((T || (m + k) % 4 == 0) && vh::begin("cut3 %llx combo%zu", (unsigned long long)m, k))
                cutting(2, 2, ms, combos[k], "cut3");
    }
    // infill meshes
    for (uint64_t m = 0; m < 4096; m++)
        for (int k = 0; k < 4; k++)
            for (int late = 0; late < 2; late++)
                if ((T || (m + k) % 2 == 0) && vh::begin("infill3 %llx k%d late%d", (unsigned long long)m, k, late))
                {
                    std::vector<int> inf = k == 0 ? std::vector{ 0, 1, 1 } : k == 1 ? std::vector{ 0, 0, 1 } : k == 2 ? std::vector{ 1, 0, 1 } : std::vector{ 0, 1, 0 };
                    infill(2, 2, { m & 15, m >> 4 & 15, m >> 8 }, inf, late);
                }
    R.make(2, 1);
    for (uint64_t a = 0; a < 512; a++)
        for (uint64_t b = 0; b < 512; b++)
            if ((T ? (a + b) % 2 == 0 : (a * 5 + b) % 16 == 0) && vh::begin("infill2 %llx %llx", (unsigned long long)a, (unsigned long long)b))
                infill(3, 3, { a, b }, { 0, 1 }, false);
}

// ---------------------------------------------------------------- C40
static void conical(int w, int h, const std::vector<uint64_t>& masks /* from the bottom */, double angle_deg, i64 layer_height, double hole_mm2, const char* family)
{
    const Complex c = quads(w, h);
    const size_t L = masks.size();
    static std::map<std::pair<int, int>, std::vector<P>> cache;
    std::vector<P>& pts = cache[{ w, h }];
    if (pts.empty())
        pts = samples(w, h, { 25, 75, 150, 300, 450, 600, 750, 900, 1050, 1125, 1175 });
    R.set(0, "conical_overhang_angle", std::to_string(angle_deg));
    R.set(0, "conical_overhang_hole_size", std::to_string(hole_mm2));
    R.set(0, "layer_height", std::to_string(layer_height / 1000.0));
    std::vector<Area> orig(L);
    std::vector<Shape> origShape(L);
    for (size_t l = 0; l < L; l++)
    {
        origShape[l] = image(c, masks[l]);
        orig[l] = Area(origShape[l]);
        R.slicers[0]->layers[l].polygons_ = origShape[l];
    }
    ConicalOverhang::apply(R.slicers[0], (*R.meshes)[0]);
    const double d = std::tan(angle_deg / 180 * M_PI) * layer_height;
    const bool tiny = std::abs((double)std::llround(d)) < 5;
    for (size_t l = L; l-- > 0;)
    {
        const Area now(R.slicers[0]->layers[l].polygons_);
        vh::outcome(hashPaths(now.ps));
        if (l + 1 == L)
        {
            VH_CHECK(now.ps == orig[l].ps, "%s: the top layer changed", family);
            continue;
        }
        Area above(R.slicers[0]->layers[l + 1].polygons_);
        // holes of this layer that are to be kept: small and fully covered by the layer above
        if (hole_mm2 > 0 && ! tiny)
        {
            Shape a = R.slicers[0]->layers[l + 1].polygons_;
            // cells outside of this layer that no path of outside cells links to the rim
            uint64_t outside = 0;
            auto solid = [&](int x, int y) { return x >= 0 && y >= 0 && x < w && y < h && (masks[l] >> (y * w + x) & 1); };
            std::vector<char> seen((w + 2) * (h + 2), 0);
            auto id = [&](int x, int y) { return (y + 1) * (w + 2) + x + 1; };
            auto flood = [&](int x0, int y0, std::vector<P>& out)
            {
                std::vector<P> stack{ { x0, y0 } };
                seen[id(x0, y0)] = 1;
                while (! stack.empty())
                {
                    const P q = stack.back();
                    stack.pop_back();
                    out.push_back(q);
                    const int dx[] = { 1, -1, 0, 0 }, dy[] = { 0, 0, 1, -1 };
                    for (int i = 0; i < 4; i++)
                    {
                        const int x = (int)q.x + dx[i], y = (int)q.y + dy[i];
                        if (x < -1 || y < -1 || x > w || y > h || seen[id(x, y)] || solid(x, y))
                            continue;
                        seen[id(x, y)] = 1;
                        stack.push_back({ x, y });
                    }
                }
            };
            std::vector<P> rim;
            flood(-1, -1, rim);
            for (int x = 0; x < w; x++)
                for (int y = 0; y < h; y++)
                    if (! solid(x, y) && ! seen[id(x, y)])
                    {
                        std::vector<P> hole;
                        flood(x, y, hole);
                        // the outline of the hole, with what is inside it
                        uint64_t hm = 0;
                        for (P q : hole)
                            hm |= 1ull << (q.y * w + q.x);
                        const Paths outline = trace(c, hm, FLAT, 0);
                        double area = 0; // of the outer outline
                        for (auto& o : outline)
                            area = std::max(area, (double)area2(o) / 2);
                        Paths outer;
                        for (auto& o : outline)
                            if (area2(o) > 0)
                                outer.push_back(o);
                        if (std::abs(area / 1e6 - hole_mm2) < 1e-4)
                        {
                            vh::note("hole of the limit size");
                        }
                        if (area / 1e6 < hole_mm2)
                        {
                            bool covered = true;
                            for (P p : pts)
                                if (evenOdd(p, outer) && ! above.has(p) && above.dist(p) > 2)
                                    covered = false;
                            // a layer above that barely misses covering the hole isn't judged
                            if (covered)
                            {
                                vh::note("holes kept");
                                a = a.difference(toShape(outer));
                            }
                        }
                    }
            above = Area(a);
        }
        for (P p : pts)
        {
            const bool had = orig[l].has(p), has = now.has(p);
            const double b0 = orig[l].dist(p);
            bool must, may;
            if (tiny)
            {
                // within 20 microns, plus as much again from smoothing
                must = (had && b0 > 45) || (above.has(p) && above.dist(p) > 45) || (had && above.has(p) && b0 > 45);
                may = orig[l].to(p) < 45 || above.to(p) < 45;
                if (had && above.has(p))
                    must = true;
            }
            else if (d > 0)
            {
                const double t = above.depth(p);
                must = had || t > d * 1.25 + 3;
                may = had || t > d - 3;
            }
            else
            {
                const double t = above.to(p);
                must = had || t < -d - 3;
                may = had || t < -d * 1.25 + 3;
            }
            if (b0 < 3)
                continue;
            if ((has && ! may) || (! has && must))
            {
                vh::fail("%s: layer %zu place %s is%s printed; step %.1f, %s, %.0f within and %.0f outside of the layer above (of %zu outlines), hole size %g", family, l, at(p).c_str(), has ? "" : " not", d,
                         had ? "in the model" : "not in the model", above.depth(p), above.to(p), above.ps.size(), hole_mm2);
                return;
            }
        }
    }
    vh::state(vh::mix(vh::hash(masks.data(), masks.size() * 8), (uint64_t)(angle_deg * 100 + 1e6) * 31 + layer_height + (uint64_t)(hole_mm2 * 1000) * 1000003));
    vh::trans(L);
}
static void exploreC40()
{
    const bool T = vh::thorough();
    struct Cfg
    {
        double angle;
        i64 lh;
        double hole;
    };
    static const Cfg cfgs[] = { { 50, 200, 0 }, { 60, 200, 1.5 }, { 30, 300, 3 }, { -30, 200, 0 }, { 1, 200, 0 }, { 0, 200, 2 }, { -1, 100, 0 }, { 70, 100, 1.44 } };
    R.make(1, 2);
    for (uint64_t a = 0; a < 512; a++)
        for (uint64_t b = 0; b < 512; b++)
        {
            if (! unambiguous(3, 3, a) || ! unambiguous(3, 3, b))
                continue;
            const size_t i = (a * 7 + b * 3 + a / 5) % 8;
            for (size_t k = 0; k < 8; k++)
                if ((T ? (k % 2 == i % 2) : k == i && (a + b) % 2 == 0) && vh::begin("stack2 %llx %llx cfg%zu", (unsigned long long)a, (unsigned long long)b, k))
                    conical(3, 3, { a, b }, cfgs[k].angle, cfgs[k].lh, cfgs[k].hole, "two layers");
        }
    // rings with holes of 1x1, 2x1 and 2x2 cells (and islands) under every image
    {
        auto frame = [](int x0, int y0, int x1, int y1)
        {
            uint64_t m = 0xffff;
            for (int x = x0; x <= x1; x++)
                for (int y = y0; y <= y1; y++)
                    m &= ~(1ull << (y * 4 + x));
            return m;
        };
        std::vector<uint64_t> below = { frame(1, 1, 1, 1), frame(1, 1, 2, 1), frame(1, 1, 2, 2), frame(1, 1, 1, 2), frame(2, 2, 2, 2), frame(1, 2, 1, 2) & frame(2, 1, 2, 1) };
        std::vector<double> holes = { 0, 1.0, 1.43, 1.45, 2.87, 2.9, 5.7, 5.8, 100 };
        for (size_t b = 0; b < below.size(); b++)
            for (uint64_t a = 0; a < 65536; a++)
            {
                if (! unambiguous(4, 4, a) || ! unambiguous(4, 4, below[b]))
                    continue;
                for (size_t k = 0; k < holes.size(); k++)
                {
                    if (! T && (a + k + b) % 61)
                        continue;
                    if (T && (a + k) % 9)
                        continue;
                    if (vh::begin("hole%zu %llx size%zu", b, (unsigned long long)a, k))
                        conical(4, 4, { below[b], a }, 45, 200, holes[k], "holes");
                }
                if (T ? (a % 4 == 0) : a % 64 == 63)
                    if (vh::begin("hole%zu %llx up", b, (unsigned long long)a))
                        conical(4, 4, { below[b], a }, -20, 200, 5.8, "holes");
            }
    }
    R.make(1, 4);
    // four layers: what a layer gained counts for the one below it
    for (uint64_t m = 0; m < 65536; m++)
    {
        if (! T && m % 3)
            continue;
        const uint64_t a = m & 15, b = m >> 4 & 15, d = m >> 8 & 15, e = m >> 12;
        if (! unambiguous(2, 2, a) || ! unambiguous(2, 2, b) || ! unambiguous(2, 2, d) || ! unambiguous(2, 2, e))
            continue;
        const size_t k = m % 7 % 5;
        if (vh::begin("stack4 %llx", (unsigned long long)m))
            conical(2, 2, { a, b, d, e }, cfgs[k].angle, cfgs[k].lh, cfgs[k].hole, "four layers");
    }
}

// ---------------------------------------------------------------- C44
static void mold(int w, int h, size_t L, const std::vector<uint64_t>& masks /* mesh * L + layer */, const std::vector<int>& on, const std::vector<i64>& width, const std::vector<double>& angle, const std::vector<i64>& roof, bool lines)
{
    const Complex c = quads(w, h);
    const size_t n = on.size();
    static std::map<std::pair<int, int>, std::vector<P>> cache;
    std::vector<P>& pts = cache[{ w, h }];
    if (pts.empty())
        pts = samples(w, h, { 14, 50, 150, 300, 600, 900, 1050, 1150, 1186 });
    R.group("layer_height", "0.2");
    std::vector<Area> orig(n * L), model(n * L);
    std::vector<AABB3D> boxes;
    for (size_t m = 0; m < n; m++)
    {
        R.set(m, "mold_enabled", on[m] ? "true" : "false");
        R.set(m, "mold_width", std::to_string(width[m] / 1000.0));
        R.set(m, "mold_angle", std::to_string(angle[m]));
        R.set(m, "mold_roof_height", std::to_string(roof[m] / 1000.0));
        R.set(m, "wall_line_width_0", "0.4");
        for (size_t l = 0; l < L; l++)
        {
            SlicerLayer& layer = R.slicers[m]->layers[l];
            layer.polygons_ = image(c, masks[m * L + l]);
            layer.open_polylines_.clear();
            orig[m * L + l] = Area(layer.polygons_);
            model[m * L + l] = Area(); // loose lines
            if (lines && on[m])
            { // a loose line, which counts as an area as wide as an outer wall
                OpenPolyline ol;
                ol.push_back(Point2LL(-500, U * 5 / 2));
                ol.push_back(Point2LL(U * w + 500, U * 5 / 2));
                layer.open_polylines_.push_back(ol);
                const i64 hw = 200, y = U * 5 / 2;
                model[m * L + l].ps.push_back({ { -500, y - hw }, { U * w + 500, y - hw }, { U * w + 500, y + hw }, { -500, y + hw } });
            }
        }
        R.box(m);
        boxes.push_back((*R.meshes)[m].getAABB());
    }
    Mold::process(R.slicers);
    for (size_t m = 0; m < n; m++)
    {
        const AABB3D b = (*R.meshes)[m].getAABB();
        if (boxes[m].min_.x_ <= boxes[m].max_.x_)
        {
            const i64 g = on[m] ? width[m] : 0;
            VH_CHECK(b.min_.x_ == boxes[m].min_.x_ - g && b.max_.y_ == boxes[m].max_.y_ + g && b.min_.y_ == boxes[m].min_.y_ - g && b.max_.x_ == boxes[m].max_.x_ + g && b.max_.z_ == boxes[m].max_.z_,
                     "mesh %zu: its box grew from %lld..%lld to %lld..%lld", m, (i64)boxes[m].min_.x_, (i64)boxes[m].max_.x_, (i64)b.min_.x_, (i64)b.max_.x_);
        }
    }
    for (size_t m = 0; m < n; m++)
    {
        if (! on[m])
        {
            for (size_t l = 0; l < L; l++)
                VH_CHECK(fromShape(R.slicers[m]->layers[l].polygons_) == orig[m * L + l].ps, "mesh %zu without mold changed on layer %zu", m, l);
            continue;
        }
        const size_t roofs = roof[m] / 200;
        const double inset = std::tan(angle[m] / 180 * M_PI) * 200;
        // bounds of the mold with its cavity filled, from the top: lower (must) and upper (may) reach, as depths along the way
        for (size_t l = L; l-- > 0;)
        {
            const Area now(R.slicers[m]->layers[l].polygons_);
            Area above; // the mold of the layer above with the cavities filled: no less than what the step starts from
            if (l + 1 < L)
            {
                Shape s = R.slicers[m]->layers[l + 1].polygons_;
                for (size_t o = 0; o < n; o++)
                    if (on[o])
                        s = s.unionPolygons(toShape(orig[o * L + l + 1].ps)).unionPolygons(toShape(model[o * L + l + 1].ps));
                above = Area(s.offset(3));
            }
            vh::outcome(hashPaths(now.ps));
            VH_CHECK(R.slicers[m]->layers[l].open_polylines_.empty(), "mesh %zu layer %zu: loose lines are left", m, l);
            for (P p : pts)
            {
                double cavity = 1e9; // distance to the borders of any model with a mold
                bool inside = false;
                for (size_t o = 0; o < n; o++)
                    if (on[o])
                        for (const Area* a : { &orig[o * L + l], &model[o * L + l] })
                        {
                            cavity = std::min(cavity, a->dist(p));
                            inside |= a->has(p);
                        }
                if (lines && p.y > U * 5 / 2 - 700 && p.y < U * 5 / 2 + 700 && (p.x < 300 || p.x > U * w - 300))
                    continue; // shape of the end of a loose line isn't part of the property
                if (cavity < 10)
                    continue;
                const bool has = now.has(p);
                bool must = false, may = false;
                if (! inside)
                {
                    // some layer l2 >= l reaches p: its outline or roof within width, shrunk by what the angle allows
                    for (size_t l2 = l; l2 < L; l2++)
                    {
                        if (l2 > l && angle[m] >= 90)
                            break;
                        for (int which = 0; which < 2; which++)
                        {
                            size_t src = l2;
                            if (which)
                            {
                                if (! roofs || l2 == 0)
                                    continue;
                                src = l2 > roofs ? l2 - roofs : 0;
                            }
                            double to = orig[m * L + src].to(p);
                            if (! which)
                                to = std::min(to, model[m * L + src].to(p));
                            const double lost = inset * (l2 - l);
                            must |= to < width[m] - lost * 1.25 - 12 - 4 * (double)(l2 - l) && (lost == 0 || to > 0 || to < width[m] - lost * 1.25);
                            may |= to < width[m] - lost + 8;
                        }
                    }
                    // together, the layers above reach more than each of them alone
                    if (angle[m] < 90 && l + 1 < L)
                        may |= above.depth(p) > inset - 12;
                }
                if ((has && ! may) || (! has && must))
                {
                    vh::fail("mesh %zu layer %zu place %s is%s printed; %s a cavity, mold width %lld, angle %g, roofs %zu", m, l, at(p).c_str(), has ? "" : " not", inside ? "within" : "outside", width[m], angle[m], roofs);
                    return;
                }
            }
        }
    }
    vh::state(vh::mix(vh::hash(masks.data(), masks.size() * 8), vh::hash(width.data(), width.size() * 8) + vh::hash(angle.data(), angle.size() * 8) + vh::hash(roof.data(), roof.size() * 8)));
    vh::trans(n * L);
}
static void exploreC44()
{
    const bool T = vh::thorough();
    static const double angles[] = { 0, 45, 90, 80 };
    static const i64 rfs[] = { 0, 200, 500, 1000 };
    R.make(1, 3);
    for (uint64_t m = 0; m < 4096; m++)
        for (int k = 0; k < 16; k++)
        {
            const uint64_t a = m & 15, b = m >> 4 & 15, d = m >> 8;
            if (! T && (m + k) % 4)
                continue;
            if (vh::begin("mold1 %llx angle%g roof%lld", (unsigned long long)m, angles[k % 4], rfs[k / 4]))
                mold(2, 2, 3, { a, b, d }, { 1 }, { (m & 1) ? 500 : 1000 }, { angles[k % 4] }, { rfs[k / 4] }, false);
        }
    R.make(2, 2);
    for (uint64_t m = 0; m < 65536; m++)
    {
        if (m % (T ? 3 : 15))
            continue;
        for (int k = 0; k < 4; k++)
            if (vh::begin("mold2 %llx k%d", (unsigned long long)m, k))
                mold(2, 2, 2, { m & 15, m >> 4 & 15, m >> 8 & 15, m >> 12 }, { 1, k & 1 }, { 700, 400 }, { angles[k], angles[(k + 1) % 4] }, { k & 2 ? 200 : 0, 400 }, false);
    }
    R.make(1, 1);
    for (uint64_t m = 0; m < 512; m++)
        for (int l = 0; l < 2; l++)
            if (vh::begin("mold3x3 %llx lines%d", (unsigned long long)m, l))
                mold(3, 3, 1, { m }, { 1 }, { 500 }, { 40 }, { 200 }, l);
}

int main(int argc, char** argv)
{
    spdlog::set_level(spdlog::level::off);
    return vh::main_(
        argc,
        argv,
        []
        {
            const std::string c = CHECK;
            if (c == "C34")
                exploreC34();
            else if (c == "C40")
                exploreC40();
            else
                exploreC44();
        },
        16);
}
