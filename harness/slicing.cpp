// Solids taken through the real slicer: cross-sections (C13) and the heights of layers (C14).
// The oracle of C13 cuts the triangles itself, in doubles, just above the layer plane.
#include "FffPolygonGenerator.h"
#include "MeshGroup.h"
#include "Mold.h"
#include "mesh.h"
#include "progress/Progress.h"
#include "raft.h"
#include "settings/AdaptiveLayerHeights.h"
#include "shapes.h"
#include "slicer.h"
#include "utils/gettime.h"
#include "vh.h"
#include "world.h"
#include <optional>

#ifndef CHECK
#define CHECK "C13"
#endif

using namespace cura;
using namespace vs;

struct V3
{
    i64 x, y, z;
};
struct Tri
{
    V3 v[3];
};
using Solid = std::vector<Tri>;
static std::string show(const V3& v)
{
    return "(" + std::to_string(v.x) + "," + std::to_string(v.y) + "," + std::to_string(v.z) + ")";
}

static void bad(const std::string& s)
{
    vh::fail("%s", s.c_str());
}

// ------------------------------------------------------------ the oracle's cross-section just above z
struct Seg
{
    double ax, ay, bx, by; // the solid lies to the left
};
static std::vector<Seg> section(const Solid& s, double z)
{
    std::vector<Seg> r;
    for (const Tri& t : s)
    {
        double px[2], py[2];
        int n = 0;
        int order[2] = { 0, 0 };
        for (int k = 0; k < 3; k++)
        {
            V3 a = t.v[k], b = t.v[(k + 1) % 3];
            const bool au = a.z > z, bu = b.z > z;
            if (au == bu)
                continue;
            order[n] = au; // the edge goes down
            if (au)
                std::swap(a, b);
            const double f = (z - a.z) / double(b.z - a.z);
            px[n] = a.x + f * (b.x - a.x);
            py[n] = a.y + f * (b.y - a.y);
            n++;
        }
        if (n != 2)
            continue;
        // seen from outside counter-clockwise: the section runs from the edge that goes down to the one that goes up
        const int from = order[0] ? 0 : 1;
        r.push_back({ px[from], py[from], px[1 - from], py[1 - from] });
    }
    return r;
}
static bool inside(const std::vector<Seg>& s, double x, double y)
{
    bool in = false;
    for (const Seg& g : s)
        if ((g.ay > y) != (g.by > y) && x < g.ax + (y - g.ay) / (g.by - g.ay) * (g.bx - g.ax))
            in = ! in;
    return in;
}
static double segDist(const Seg& g, double x, double y)
{
    const double dx = g.bx - g.ax, dy = g.by - g.ay, l = dx * dx + dy * dy;
    double f = l > 0 ? ((x - g.ax) * dx + (y - g.ay) * dy) / l : 0;
    f = std::min(1.0, std::max(0.0, f));
    return std::hypot(x - g.ax - f * dx, y - g.ay - f * dy);
}
static double border(const std::vector<Seg>& s, double x, double y)
{
    double d = 1e18;
    for (const Seg& g : s)
        d = std::min(d, segDist(g, x, y));
    return d;
}

// ------------------------------------------------------------ solids
/*! the surface of the cells of a grid of which the bits are set, each lattice point mapped to where `at` puts it */
static Solid voxels(int w, int h, int d, uint64_t bits, const std::function<V3(int, int, int)>& at, int diagonals)
{
    Solid r;
    auto full = [&](int x, int y, int z)
    {
        return x >= 0 && y >= 0 && z >= 0 && x < w && y < h && z < d && (bits >> (x + w * (y + h * z)) & 1);
    };
    auto quad = [&](V3 a, V3 b, V3 c, V3 e, bool other)
    {
        if (other)
        {
            r.push_back({ { a, b, e } });
            r.push_back({ { b, c, e } });
        }
        else
        {
            r.push_back({ { a, b, c } });
            r.push_back({ { a, c, e } });
        }
    };
    for (int z = 0; z < d; z++)
        for (int y = 0; y < h; y++)
            for (int x = 0; x < w; x++)
            {
                if (! full(x, y, z))
                    continue;
                auto p = [&](int dx, int dy, int dz)
                {
                    return at(x + dx, y + dy, z + dz);
                };
                const int g = diagonals >> ((x * 3 + y * 5 + z * 7) % 4);
                if (! full(x - 1, y, z))
                    quad(p(0, 0, 0), p(0, 0, 1), p(0, 1, 1), p(0, 1, 0), g & 1);
                if (! full(x + 1, y, z))
                    quad(p(1, 0, 0), p(1, 1, 0), p(1, 1, 1), p(1, 0, 1), g & 2);
                if (! full(x, y - 1, z))
                    quad(p(0, 0, 0), p(1, 0, 0), p(1, 0, 1), p(0, 0, 1), g & 1);
                if (! full(x, y + 1, z))
                    quad(p(0, 1, 0), p(0, 1, 1), p(1, 1, 1), p(1, 1, 0), g & 2);
                if (! full(x, y, z - 1))
                    quad(p(0, 0, 0), p(0, 1, 0), p(1, 1, 0), p(1, 0, 0), g & 1);
                if (! full(x, y, z + 1))
                    quad(p(0, 0, 1), p(1, 0, 1), p(1, 1, 1), p(0, 1, 1), g & 2);
            }
    return r;
}
/*! cells that share no more than an edge or a corner make the surface ambiguous there */
static bool manifold(int w, int h, int d, uint64_t bits)
{
    auto full = [&](int x, int y, int z)
    {
        return x >= 0 && y >= 0 && z >= 0 && x < w && y < h && z < d && (bits >> (x + w * (y + h * z)) & 1);
    };
    for (int z = -1; z < d; z++)
        for (int y = -1; y < h; y++)
            for (int x = -1; x < w; x++)
            {
                int c[8], n = 0;
                for (int k = 0; k < 8; k++)
                    n += c[k] = full(x + (k & 1), y + (k >> 1 & 1), z + (k >> 2));
                // edges around this corner: four cells around each
                for (int axis = 0; axis < 3; axis++)
                    for (int side = 0; side < 2; side++)
                    {
                        const int u = 1 << ((axis + 1) % 3), v = 1 << ((axis + 2) % 3), b = side << axis;
                        if (c[b] == c[b | u | v] && c[b | u] == c[b | v] && c[b] != c[b | u])
                            return false;
                    }
                // opposite corners only
                for (int k = 0; k < 4; k++)
                    if ((n == 2 && c[k] && c[7 - k]) || (n == 6 && ! c[k] && ! c[7 - k]))
                        return false;
            }
    return true;
}
static i64 det(V3 a, V3 b, V3 c, V3 d)
{
    const i64 x1 = b.x - a.x, y1 = b.y - a.y, z1 = b.z - a.z, x2 = c.x - a.x, y2 = c.y - a.y, z2 = c.z - a.z, x3 = d.x - a.x, y3 = d.y - a.y, z3 = d.z - a.z;
    return x1 * (y2 * z3 - z2 * y3) - y1 * (x2 * z3 - z2 * x3) + z1 * (x2 * y3 - y2 * x3);
}
/*! the same triangles in another order and with other first vertices */
static Solid shuffled(const Solid& s, int how)
{
    Solid r;
    const size_t n = s.size();
    for (size_t i = 0; i < n; i++)
    {
        const size_t j = how % 3 == 0 ? i : how % 3 == 1 ? n - 1 - i : (i % 2 ? n - 1 - i / 2 : i / 2);
        const int rot = (how + (how > 2 ? i : 0)) % 3;
        r.push_back({ { s[j].v[rot], s[j].v[(rot + 1) % 3], s[j].v[(rot + 2) % 3] } });
    }
    return r;
}

// ------------------------------------------------------------ running
static void addTo(Mesh& m, const Solid& s)
{
    auto p = [](const V3& v)
    {
        return Point3LL(v.x, v.y, v.z);
    };
    for (const Tri& t : s)
        m.addFace(p(t.v[0]), p(t.v[1]), p(t.v[2]));
    m.finish();
}
static Scene* scene;
static void start(int extruders = 1)
{
    scene = &world::fresh(extruders, 1);
    scene->mesh_groups[0].settings.setParent(&scene->settings);
    scene->current_mesh_group = scene->mesh_groups.begin();
}
struct Opt
{
    i64 first = 200, thick = 200;
    int layers = 4;
    SlicingTolerance tol = SlicingTolerance::MIDDLE;
    double slack = 4; // microns by which the outline may be off
    i64 xy = 0, xy0 = 0, hole = 0, hole_max = 0;
    bool open_ok = false;
};
static std::optional<Mesh> mesh;
static void prepare(const Opt& o, bool exact)
{
    start();
    auto& st = scene->settings;
    if (exact)
    {
        st.add("meshfix_maximum_resolution", "0.001");
        st.add("meshfix_maximum_deviation", "0.001");
    }
    st.add("minimum_polygon_circumference", "0.01");
    st.add("xy_offset", std::to_string(o.xy / 1000.));
    st.add("xy_offset_layer_0", std::to_string(o.xy0 / 1000.));
    st.add("hole_xy_offset", std::to_string(o.hole / 1000.));
    st.add("hole_xy_offset_max_diameter", std::to_string(o.hole_max / 1000.));
}
static std::vector<i64> planes(const Opt& o)
{
    std::vector<i64> z;
    for (int l = 0; l <= o.layers; l++)
        if (o.tol == SlicingTolerance::MIDDLE)
            z.push_back(l ? o.first + o.thick / 2 + o.thick * (l - 1) : o.first / 2);
        else
            z.push_back(l ? o.first + o.thick * (l - 1) : o.tol == SlicingTolerance::INCLUSIVE ? 0 : std::max<i64>(0, o.first - o.thick));
    return z;
}
/*! slices the solid and compares every layer; truth is the closed solid, given what is put in */
static bool compare(const Solid& in, const Solid& truth, const Opt& o)
{
    mesh.emplace(scene->mesh_groups[0].settings);
    addTo(*mesh, in);
    Slicer s(&*mesh, o.thick, o.layers, false, nullptr, o.tol, o.first);
    const std::vector<i64> z = planes(o);
    std::vector<std::vector<Seg>> cut;
    for (i64 v : z)
        cut.push_back(section(truth, v + 1e-6));
    i64 x0 = 1LL << 40, x1 = -x0, y0 = x0, y1 = x1;
    for (const Tri& t : truth)
        for (const V3& v : t.v)
            x0 = std::min(x0, v.x), x1 = std::max(x1, v.x), y0 = std::min(y0, v.y), y1 = std::max(y1, v.y);
    for (int l = 0; l < o.layers; l++)
    {
        const SlicerLayer& layer = s.layers[l];
        if (layer.z_ != z[l])
        {
            bad("layer " + std::to_string(l) + " is cut at " + std::to_string(layer.z_) + ", " + std::to_string(z[l]) + " expected");
            return false;
        }
        std::vector<const std::vector<Seg>*> parts{ &cut[l] };
        if (o.tol == SlicingTolerance::INCLUSIVE && l + 1 < o.layers)
            parts.push_back(&cut[l + 1]);
        if (o.tol == SlicingTolerance::EXCLUSIVE)
        {
            if (l + 1 < o.layers)
                parts.push_back(&cut[l + 1]);
            else
                parts = {};
        }
        const Paths got = fromShape(layer.polygons_);
        auto want = [&](double x, double y)
        {
            bool any = false, all = ! parts.empty();
            for (auto* p : parts)
                (inside(*p, x, y) ? any : all) = inside(*p, x, y);
            return o.tol == SlicingTolerance::INCLUSIVE ? any : all;
        };
        auto where = [&](double x, double y, bool w)
        {
            std::string g;
            for (const Tri& t : in)
                g += " " + show(t.v[0]) + show(t.v[1]) + show(t.v[2]);
            bad("layer " + std::to_string(l) + " cut at " + std::to_string(z[l]) + ": (" + std::to_string(x) + "," + std::to_string(y) + ") should be " + (w ? "inside" : "outside") + " of the slice; solid" + g.substr(0, 2500));
        };
        auto judge = [&](double x, double y)
        {
            x = std::round(x);
            y = std::round(y);
            double d = 1e18;
            for (auto* p : parts)
                d = std::min(d, border(*p, x, y));
            if (d <= o.slack)
                return true;
            vh::trans(1);
            const bool w = want(x, y);
            const P q{ i64(x), i64(y) };
            if (evenOdd(q, got) == w)
                return true;
            where(x, y, w);
            return false;
        };
        for (int i = 0; i <= 8; i++)
            for (int k = 0; k <= 8; k++)
                if (! judge(x0 + (x1 - x0) * i / 8. + (k - 4) * 13, y0 + (y1 - y0) * k / 8. + (i - 4) * 17))
                    return false;
        for (auto* p : parts)
            for (const Seg& g : *p)
            {
                const double len = std::hypot(g.bx - g.ax, g.by - g.ay);
                if (len < 4 * o.slack)
                    continue;
                for (double f : { 0.1, 0.5, 0.9 })
                    for (double side : { -1.5, 1.5 })
                        if (! judge(g.ax + f * (g.bx - g.ax) - (g.by - g.ay) / len * side * (o.slack + 1), g.ay + f * (g.by - g.ay) + (g.bx - g.ax) / len * side * (o.slack + 1)))
                            return false;
            }
        // closed, orientated loops
        double area = 0, true_area = 0, around = 0;
        for (const auto& p : layer.polygons_)
            area += p.area();
        if (parts.size() == 1)
        {
            for (const Seg& g : cut[l])
                true_area += (g.ax * g.by - g.bx * g.ay) / 2, around += std::hypot(g.bx - g.ax, g.by - g.ay);
            if (std::fabs(area - true_area) > (o.slack + 1) * around + 100)
            {
                bad("layer " + std::to_string(l) + " cut at " + std::to_string(z[l]) + ": area " + std::to_string(area) + ", " + std::to_string(true_area) + " expected");
                return false;
            }
        }
        if (! o.open_ok && o.tol == SlicingTolerance::MIDDLE)
            for (const auto& line : layer.open_polylines_)
                if (line.length() > 4 * o.slack)
                {
                    bad("layer " + std::to_string(l) + " cut at " + std::to_string(z[l]) + ": an open line of " + std::to_string(line.length()) + " is left");
                    return false;
                }
        uint64_t hsh = vh::hash(std::to_string(layer.polygons_.size()) + ":" + std::to_string(i64(area)));
        vh::outcome(hsh);
    }
    vh::state(vh::hash(std::to_string(in.size()) + show(in[0].v[0]) + show(in[0].v[1]) + show(in[0].v[2]) + show(in.back().v[0]) + show(in.back().v[2]) + std::to_string(x1) + "," + std::to_string(y1)));
    return true;
}

struct Place
{
    const char* name;
    i64 ax, ay, az, bx, by, bz, cx, cy, cz, tx, ty, tz;
    i64 wobble, wobble_z;
};
static V3 put(const Place& p, int x, int y, int z)
{
    const uint64_t r = (uint64_t(x) * 73856093u ^ uint64_t(y) * 19349663u ^ uint64_t(z) * 83492791u) * 2654435761u >> 7;
    auto w = [&](int k, i64 a)
    {
        return a ? i64((r >> (8 * k)) & 255) * 2 * a / 255 - a : 0;
    };
    return { p.tx + x * p.ax + y * p.bx + z * p.cx + w(0, p.wobble), p.ty + x * p.ay + y * p.by + z * p.cy + w(1, p.wobble), p.tz + x * p.az + y * p.bz + z * p.cz + w(2, p.wobble_z) };
}
// z of lattice planes both between and exactly at the planes of layers (100, 300, 500 ...)
static const std::vector<Place> places = {
    { "upright", 2000, 0, 0, 0, 1700, 0, 0, 0, 400, 3000, 4000, 0, 0, 0 },
    { "leaning", 2000, 300, 0, -500, 1700, 0, 300, 700, 400, -3000, -1000, 100, 0, 0 },
    { "tilted", 1800, 200, 200, -400, 1500, 100, 150, -600, 400, 1000, 500, 50, 0, 0 },
    { "wobbly", 2000, 100, 0, -200, 1700, 0, 100, 200, 400, -1500, -1500, 30, 500, 110 },
    { "steep", 900, 100, 400, -100, 800, -200, 300, 200, 600, 100000, -90000, 300, 0, 0 },
    { "big", 40000, 3000, 0, -5000, 30000, 200, 9000, 5000, 400, -250000, 100000, 0, 0, 0 },
};

static void explore13()
{
    const bool T = vh::thorough();
    // tetrahedra between the points of a 3 x 3 x 3 lattice
    const i64 xs[3] = { 0, 2300, 5100 }, ys[3] = { 0, 1900, 4700 };
    for (int shift = 0; shift < 2; shift++)
        for (int a = 0; a < 27; a++)
            for (int b = a + 1; b < 27; b++)
            {
                if (! vh::begin("tetrahedra %d of %d and %d", shift, a, b))
                    continue;
                const Opt o{ .layers = 5 };
                prepare(o, true);
                auto pt = [&](int k)
                {
                    return V3{ xs[k % 3] - 1000, ys[k / 3 % 3] + 77, (k / 9) * 400 + shift * 100 };
                };
                for (int c = b + 1; c < 27; c++)
                    for (int d = c + 1; d < 27; d++)
                    {
                        if (! T && (a + b * 3 + c * 5 + d * 7) % 3)
                            continue;
                        V3 p = pt(a), q = pt(b), r = pt(c), s = pt(d);
                        const i64 v = det(p, q, r, s);
                        if (v == 0)
                            continue;
                        if (v < 0)
                            std::swap(r, s);
                        // outward, counter-clockwise
                        const Solid t{ { { p, r, q } }, { { p, q, s } }, { { q, r, s } }, { { r, p, s } } };
                        if (! compare(shuffled(t, (a + b + c + d) % 6), t, o))
                            goto next;
                    }
            next:;
            }
    struct Grid3
    {
        int w, h, d, every, every_t;
    };
    // solids of cells
    const std::vector<Grid3> grids = { { 2, 2, 2, 1, 1 }, { 3, 2, 2, 24, 3 }, { 2, 2, 3, 24, 3 }, { 3, 3, 1, 3, 1 }, { 3, 3, 2, 1499, 101 } };
    for (size_t g = 0; g < grids.size(); g++)
        for (size_t e = 0; e < places.size(); e++)
            for (int block = 0; block < 16; block++)
            {
                if (! vh::begin("cells %dx%dx%d %s #%d", grids[g].w, grids[g].h, grids[g].d, places[e].name, block))
                    continue;
                const Opt o{ .layers = 5 + grids[g].d * 2 };
                prepare(o, true);
                auto at = [&](int x, int y, int z)
                {
                    return put(places[e], x, y, z);
                };
                const int every = T ? grids[g].every_t : grids[g].every;
                const uint64_t n = 1ULL << (grids[g].w * grids[g].h * grids[g].d);
                for (uint64_t k = 1, taken = 0; k < n; k++)
                {
                    if (k % every || ! manifold(grids[g].w, grids[g].h, grids[g].d, k) || int(taken++ % 16) != block)
                        continue;
                    const Solid s = voxels(grids[g].w, grids[g].h, grids[g].d, k, at, int(k + e) & 15);
                    if (! compare(shuffled(s, (k + e) % 6), s, o))
                        break;
                }
            }
    // as prints are sliced, with outlines simplified; and with the other ways to deal with slopes
    const SlicingTolerance tols[] = { SlicingTolerance::MIDDLE, SlicingTolerance::INCLUSIVE, SlicingTolerance::EXCLUSIVE };
    for (int tol = 0; tol < 3; tol++)
        for (size_t e = 0; e < places.size(); e++)
            for (i64 first : { 200, 300, 140 })
            {
                if (! vh::begin("tolerance %d %s first layer %lld", tol, places[e].name, (long long)first))
                    continue;
                Opt o{ .first = first, .layers = 8, .tol = tols[tol] };
                o.slack = tol == 0 ? 48 : 4;
                prepare(o, tol != 0);
                auto at = [&](int x, int y, int z)
                {
                    return put(places[e], x, y, z);
                };
                for (uint64_t k = 1; k < 4096; k += T ? 1 : 5)
                {
                    if (! manifold(2, 2, 3, k))
                        continue;
                    const Solid s = voxels(2, 2, 3, k, at, int(k) & 15);
                    if (! compare(s, s, o))
                        break;
                }
            }
    // a triangle missing: the gap is closed with a straight line
    for (size_t e = 0; e < places.size() - 1; e++)
        for (int diag = 0; diag < 4; diag++)
        {
            if (! vh::begin("missing triangle %s %d", places[e].name, diag))
                continue;
            Opt o{ .layers = 7 };
            o.open_ok = true;
            prepare(o, true);
            auto at = [&](int x, int y, int z)
            {
                return put(places[e], x, y, z);
            };
            for (uint64_t k = 1; k < 256; k += T ? 1 : 4)
            {
                if (! manifold(2, 2, 2, k))
                    continue;
                const Solid s = voxels(2, 2, 2, k, at, diag * 5);
                for (size_t i = 0; i < s.size(); i++)
                {
                    Solid m = s;
                    m.erase(m.begin() + i);
                    if (! compare(shuffled(m, i % 6), s, o))
                        goto nextm;
                }
            }
        nextm:;
        }
    // cracks: every triangle has vertices of its own, a few microns off
    for (size_t e : { 0, 1, 2, 4 })
        for (i64 crack : { 1, 4, 7 })
        {
            if (! vh::begin("cracks of %lld %s", (long long)crack, places[e].name))
                continue;
            Opt o{ .first = 260, .layers = 7 };
            o.slack = 4 + 30 * crack; // along gentle slopes the border moves farther
            o.open_ok = true;
            prepare(o, true);
            auto at = [&](int x, int y, int z)
            {
                return put(places[e], x, y, z);
            };
            for (uint64_t k = 1; k < 4096; k += T ? 7 : 35)
            {
                if (! manifold(3, 2, 2, k))
                    continue;
                const Solid s = voxels(3, 2, 2, k, at, int(k) & 15);
                Solid m = s;
                for (size_t i = 0; i < m.size(); i++)
                    for (int v = 0; v < 3; v++)
                    {
                        const unsigned r = unsigned(i * 3 + v + k) * 2654435761u;
                        m[i].v[v].x += (i64((r >> 5) % 3) - 1) * crack;
                        m[i].v[v].y += (i64((r >> 9) % 3) - 1) * crack;
                        m[i].v[v].z += (i64((r >> 13) % 3) - 1) * crack;
                    }
                if (! compare(m, s, o))
                    break;
            }
        }
    // horizontal expansion
    struct Xy
    {
        i64 xy, xy0, hole, hole_max;
    };
    const std::vector<Xy> xys = { { 200, 200, 0, 0 }, { -300, -300, 0, 0 }, { 100, -200, 0, 0 }, { 0, 300, 0, 0 }, { 0, 0, 250, 0 }, { 0, 0, -250, 0 }, { 0, 0, 300, 5000 }, { 0, 0, 300, 1500 }, { 200, 0, 200, 0 } };
    for (size_t c = 0; c < xys.size(); c++)
        for (int raised = 0; raised < 2; raised++)
        {
            if (! vh::begin("expansion %lld %lld holes %lld up to %lld raised %d", (long long)xys[c].xy, (long long)xys[c].xy0, (long long)xys[c].hole, (long long)xys[c].hole_max, raised))
                continue;
            Opt o{ .layers = 4 };
            o.xy = xys[c].xy;
            o.xy0 = xys[c].xy0;
            o.hole = xys[c].hole;
            o.hole_max = xys[c].hole_max;
            prepare(o, true);
            const i64 U = 2000;
            for (uint64_t k = 1; k < 512; k += 1)
            {
                if (! unambiguous(3, 3, k))
                    continue;
                auto at = [&](int x, int y, int z)
                {
                    return V3{ x * U, y * U, z * 1000 + raised * 250 };
                };
                const Solid s = voxels(3, 3, 1, k, at, int(k) & 15);
                mesh.emplace(scene->mesh_groups[0].settings);
                addTo(*mesh, s);
                const AABB3D before = mesh->getAABB();
                Slicer sl(&*mesh, o.thick, o.layers, false, nullptr, o.tol, o.first);
                if (mesh->getAABB().min_.x_ != before.min_.x_ - o.xy || mesh->getAABB().max_.y_ != before.max_.y_ + o.xy)
                {
                    bad("the box around the mesh is not grown by the expansion");
                    break;
                }
                bool wrong = false;
                const int first_filled = raised ? 1 : 0;
                // the only possible hole is the middle cell
                const bool ring = (k & 16) == 0 && (k & 0b111101111) == 0b111101111;
                for (int l = 0; l < o.layers && ! wrong; l++)
                {
                    const std::vector<Seg> cut = section(s, planes(o)[l] + 1e-6);
                    const Paths got = fromShape(sl.layers[l].polygons_);
                    const i64 grow = l <= first_filled ? o.xy0 : o.xy;
                    for (i64 x = -500; x <= 3 * U + 500 && ! wrong; x += 97)
                        for (i64 y = -500; y <= 3 * U + 500 && ! wrong; y += 89)
                        {
                            const bool in = inside(cut, x, y);
                            double d = border(cut, x, y);
                            if (cut.empty())
                                d = 1e9;
                            bool want = in;
                            if (ring && x > U / 2 && x < 2 * U + U / 2 && y > U / 2 && y < 2 * U + U / 2 && ! cut.empty())
                            { // the hole: first the material grows, then what is left of the hole
                                const i64 side = U - 2 * grow;
                                i64 more = 0;
                                if (o.hole && side > 0)
                                {
                                    const double area = double(side) * side, limit = M_PI / 4 * o.hole_max * double(o.hole_max);
                                    more = o.hole_max == 0 ? o.hole : area < limit ? i64(o.hole * (1 - area / limit)) : 0;
                                }
                                // distance out of the middle, square (corners judged only where both agree)
                                const i64 m = std::max(std::llabs(x - U - U / 2), std::llabs(y - U - U / 2)), half = U / 2 - grow + more;
                                if (std::llabs(m - half) <= 8 || (x - U - U / 2 != 0 && std::llabs(std::llabs(x - U - U / 2) - std::llabs(y - U - U / 2)) < 700))
                                    continue;
                                want = m > half;
                                vh::trans(1);
                                if (evenOdd({ x, y }, got) != want)
                                {
                                    bad("layer " + std::to_string(l) + " image " + std::to_string(k) + ": hole of half " + std::to_string(half) + " expected, (" + std::to_string(x) + "," + std::to_string(y) + ") is " + (want ? "not filled" : "filled"));
                                    wrong = true;
                                }
                                continue;
                            }
                            if (grow > 0 && ! in)
                            {
                                if (std::fabs(d - grow) <= 20) // corners are rounded with a few points
                                    continue;
                                want = d < grow;
                            }
                            else if (grow < 0 && in)
                            {
                                if (std::fabs(d + grow) <= 20)
                                    continue;
                                want = d > -grow;
                            }
                            else if (d <= 8)
                                continue;
                            // within a concave corner of a hole-shaped notch everything is as outside
                            vh::trans(1);
                            if (evenOdd({ x, y }, got) != want)
                            {
                                bad("layer " + std::to_string(l) + " image " + std::to_string(k) + ": (" + std::to_string(x) + "," + std::to_string(y) + "), " + std::to_string(d) + " from the border, should be " + (want ? "inside" : "outside"));
                                wrong = true;
                            }
                        }
                    vh::outcome(vh::hash(std::to_string(got.size()) + "/" + std::to_string(i64(sl.layers[l].polygons_.area()))));
                }
                if (wrong)
                    break;
            }
        }
}

// ------------------------------------------------------------ C14
struct Model
{
    i64 z0, h;
    const char* kind = ""; // the boolean setting that makes it something else than a model
    SlicingTolerance tol = SlicingTolerance::MIDDLE;
};
static const char* tolName(SlicingTolerance t)
{
    return t == SlicingTolerance::MIDDLE ? "middle" : t == SlicingTolerance::INCLUSIVE ? "inclusive" : "exclusive";
}
static Solid boxSolid(i64 x, i64 z0, i64 h)
{
    return voxels(1, 1, 1, 1, [&](int a, int b, int c) { return V3{ x + a * 6000, 10000 + b * 6000, z0 + c * h }; }, 0);
}
static std::optional<SliceDataStorage> storage;
static bool runModel()
{
    TimeKeeper t;
    FffPolygonGenerator gen;
    storage.emplace();
    return gen.sliceModel(&*scene->current_mesh_group, t, *storage);
}
/*! heights and thicknesses of the layers of one mesh, as they will be printed */
static bool heights(const std::string& what, const SliceMeshStorage& m, i64 first, const std::vector<i64>& thick, i64 base, i64 overlap)
{
    i64 top = base;
    for (size_t l = 0; l < m.layers.size(); l++)
    {
        const i64 t = l == 0 ? first : thick.size() == 1 ? thick[0] : thick[l];
        if (m.layers[l].thickness != t)
        {
            bad(what + ": layer " + std::to_string(l) + " is " + std::to_string(m.layers[l].thickness) + " thick, " + std::to_string(t) + " expected");
            return false;
        }
        top += t;
        const i64 z = top - (l ? overlap : 0);
        if (m.layers[l].printZ != z)
        {
            bad(what + ": layer " + std::to_string(l) + " is printed at " + std::to_string(m.layers[l].printZ) + ", " + std::to_string(z) + " expected");
            return false;
        }
        if (l && ! overlap && m.layers[l].printZ <= m.layers[l - 1].printZ)
        {
            bad(what + ": layer " + std::to_string(l) + " is no higher than the one before");
            return false;
        }
        vh::trans(1);
    }
    return true;
}
static bool filled(const SliceLayer& l)
{
    return ! l.parts.empty();
}
/*! models of plain boxes with layers of one height */
static bool boxes(const std::vector<Model>& models, i64 first, i64 thick, bool raft, bool remove)
{
    start();
    MeshGroup& group = *scene->current_mesh_group;
    auto& gs = group.settings;
    gs.add("layer_height", std::to_string(thick / 1000.));
    gs.add("layer_height_0", std::to_string(first / 1000.));
    gs.add("adhesion_type", raft ? "raft" : "none");
    const i64 gap = raft ? 250 : 0, overlap = raft ? 120 : 0;
    gs.add("raft_airgap", std::to_string(gap / 1000.));
    gs.add("layer_0_z_overlap", std::to_string(overlap / 1000.));
    scene->extruders[0].settings_.add("raft_airgap", std::to_string(gap / 1000.));
    scene->extruders[0].settings_.add("layer_0_z_overlap", std::to_string(overlap / 1000.));
    group.meshes.reserve(models.size());
    std::string what = "first " + std::to_string(first) + " height " + std::to_string(thick) + (raft ? " raft" : "");
    for (size_t i = 0; i < models.size(); i++)
    {
        group.meshes.emplace_back(gs);
        Mesh& m = group.meshes.back();
        m.settings_.add("slicing_tolerance", tolName(models[i].tol));
        if (*models[i].kind)
            m.settings_.add(models[i].kind, "true");
        addTo(m, boxSolid(10000 + 8000 * i, models[i].z0, models[i].h));
        what += std::string(", ") + (*models[i].kind ? models[i].kind : "model") + " " + tolName(models[i].tol) + " from " + std::to_string(models[i].z0) + " to " + std::to_string(models[i].z0 + models[i].h);
    }
    const i64 base = raft ? i64(Raft::getTotalThickness()) + gap : 0;
    if (! runModel())
    {
        bad(what + ": slicing failed");
        return false;
    }
    // the layers a box takes part in
    auto bottom = [&](int l)
    {
        return l ? first + (l - 1) * thick : 0;
    };
    auto upper = [&](int l)
    {
        return first + l * thick;
    };
    size_t total = 0;
    i64 print_top = 0; // of the meshes that decide how many layers there are
    bool any_printed = false;
    for (const Model& m : models)
        if (std::string(m.kind) != "cutting_mesh" && std::string(m.kind) != "anti_overhang_mesh")
            print_top = std::max(print_top, m.z0 + m.h), any_printed = true;
    if (storage->meshes.empty())
    { // fine if nothing reaches the middle of the first layer
        for (const Model& m : models)
        {
            const bool some = m.tol == SlicingTolerance::MIDDLE ? m.z0 + m.h > first / 2 : m.tol == SlicingTolerance::INCLUSIVE ? m.h > 0 : m.z0 + m.h > first;
            if (some && ! *m.kind)
            {
                bad(what + ": nothing is sliced");
                return false;
            }
        }
        return true;
    }
    size_t si = 0;
    for (size_t i = 0; i < models.size(); i++)
    {
        const Model& m = models[i];
        const std::string kind = m.kind;
        if (kind == "anti_overhang_mesh")
            continue;
        if (si >= storage->meshes.size())
        {
            bad(what + ": mesh " + std::to_string(i) + " is lost");
            return false;
        }
        const SliceMeshStorage& s = *storage->meshes[si++];
        if (kind == "cutting_mesh")
            continue;
        if (! heights(what, s, first, { thick }, base, overlap))
            return false;
        total = s.layers.size();
        const i64 lo = m.z0, hi = m.z0 + m.h;
        if (kind == "support_mesh")
            continue;
        i64 top_needed = 0;
        for (int l = 0; l < 4 + hi / thick; l++)
        {
            auto cut = [&](i64 z)
            {
                return z >= lo && z < hi;
            };
            int want; // 0 no, 1 yes, 2 either
            if (m.tol == SlicingTolerance::MIDDLE)
                want = cut(l ? bottom(l) + thick / 2 : first / 2);
            else if (m.tol == SlicingTolerance::INCLUSIVE)
                want = cut(bottom(l)) || cut(upper(l)) ? 1 : 0;
            else
                want = l == 0 && first > thick ? (cut(upper(0)) && cut(0) ? 1 : cut(upper(0)) ? 2 : 0) : cut(bottom(l)) && cut(upper(l));
            const bool there = l < int(s.layers.size()), got = there && filled(s.layers[l]);
            if (! there && kind == "infill_mesh")
                continue; // nothing of it is printed above the models
            if (want != 2 && got != (want == 1))
            {
                bad(what + ": layer " + std::to_string(l) + " of mesh " + std::to_string(i) + (got ? " is filled" : there ? " is empty" : " does not exist"));
                return false;
            }
            if (want == 1)
                top_needed = upper(l);
        }
        // what is printed reaches the top within one layer
        if (top_needed && lo == 0 && kind.empty() && std::llabs(top_needed - hi) > thick && hi > first)
        {
            bad(what + ": printed up to " + std::to_string(top_needed));
            return false;
        }
    }
    bool exclusive = false;
    for (const Model& m : models)
        exclusive = exclusive || m.tol == SlicingTolerance::EXCLUSIVE;
    if (any_printed && total > 1 && i64(bottom(int(total) - 1)) > print_top + (exclusive ? thick : 0))
    {
        bad(what + ": " + std::to_string(total) + " layers, but the top is at " + std::to_string(print_top));
        return false;
    }
    if (storage->print_layer_count > total || (storage->support.supportLayers.size() != storage->print_layer_count))
    {
        bad(what + ": print_layer_count " + std::to_string(storage->print_layer_count) + " of " + std::to_string(total) + " layers");
        return false;
    }
    if (remove)
    {
        // give the layers walls, so that only those without an area are empty
        for (auto& m : storage->meshes)
            for (SliceLayer& l : m->layers)
                for (SliceLayerPart& p : l.parts)
                {
                    p.print_outline = p.outline;
                    p.wall_toolpaths.resize(1);
                    p.wall_toolpaths[0].resize(1);
                }
        size_t empty = 0;
        for (; empty < storage->print_layer_count; empty++)
        {
            bool some = false;
            for (auto& m : storage->meshes)
                some = some || (empty < m->layers.size() && filled(m->layers[empty]));
            if (some)
                break;
        }
        if (empty < storage->print_layer_count)
        {
            FffPolygonGenerator gen;
            size_t layers = storage->print_layer_count;
            gen.removeEmptyFirstLayers(*storage, layers);
            bool some = false;
            for (auto& m : storage->meshes)
                some = some || filled(m->layers[0]);
            if (layers != total - empty || ! some)
            {
                bad(what + ": " + std::to_string(empty) + " layers were empty, " + std::to_string(layers) + " of " + std::to_string(total) + " left");
                return false;
            }
            for (auto& m : storage->meshes)
                if (! heights(what + ", first layers removed", *m, first, { thick }, base, overlap))
                    return false;
        }
    }
    vh::outcome(vh::hash(std::to_string(total) + ":" + std::to_string(storage->print_layer_count)));
    vh::state(vh::hash(what));
    return true;
}

/*! an upright prism with the given half profile: at heights z[i] the half width is w[i] */
static Solid profile(i64 x, const std::vector<i64>& z, const std::vector<i64>& w)
{
    Solid r;
    const i64 Y0 = 10000, Y1 = 16000;
    auto quad = [&](V3 a, V3 b, V3 c, V3 d)
    {
        r.push_back({ { a, b, c } });
        r.push_back({ { a, c, d } });
    };
    for (size_t i = 0; i + 1 < z.size(); i++)
    {
        const V3 a{ x - w[i], Y0, z[i] }, b{ x + w[i], Y0, z[i] }, c{ x + w[i + 1], Y0, z[i + 1] }, d{ x - w[i + 1], Y0, z[i + 1] };
        auto back = [&](V3 v)
        {
            v.y = Y1;
            return v;
        };
        quad(a, b, c, d);
        quad(back(b), back(a), back(d), back(c));
        quad(b, back(b), back(c), c);
        quad(back(a), a, d, back(d));
    }
    const size_t n = z.size() - 1;
    quad({ x - w[0], Y0, z[0] }, { x - w[0], Y1, z[0] }, { x + w[0], Y1, z[0] }, { x + w[0], Y0, z[0] });
    quad({ x - w[n], Y0, z[n] }, { x + w[n], Y0, z[n] }, { x + w[n], Y1, z[n] }, { x - w[n], Y1, z[n] });
    return r;
}
struct Vary
{
    i64 thick, first, variation, step, threshold;
    SlicingTolerance tol;
};
static bool adaptive(const std::vector<Solid>& solids, const Vary& v, int raft, bool remove)
{
    start();
    MeshGroup& group = *scene->current_mesh_group;
    auto& gs = group.settings;
    gs.add("layer_height", std::to_string(v.thick / 1000.));
    gs.add("layer_height_0", std::to_string(v.first / 1000.));
    gs.add("adhesion_type", raft ? "raft" : "none");
    const i64 gap = raft ? 250 : 0, overlap = raft ? 120 : 0;
    scene->extruders[0].settings_.add("raft_airgap", std::to_string(gap / 1000.));
    scene->extruders[0].settings_.add("layer_0_z_overlap", std::to_string(overlap / 1000.));
    gs.add("adaptive_layer_height_enabled", "true");
    gs.add("adaptive_layer_height_variation", std::to_string(v.variation / 1000.));
    gs.add("adaptive_layer_height_variation_step", std::to_string(v.step / 1000.));
    gs.add("adaptive_layer_height_threshold", std::to_string(v.threshold / 1000.));
    gs.add("slicing_tolerance", tolName(v.tol));
    group.meshes.reserve(solids.size());
    i64 top = 0, low = 1LL << 40;
    std::string what = "layers of " + std::to_string(v.thick) + " +-" + std::to_string(v.variation) + " by " + std::to_string(v.step) + " first " + std::to_string(v.first) + " threshold " + std::to_string(v.threshold) + " " + tolName(v.tol);
    struct Face
    {
        i64 lo, hi;
        double tan; // < 0: flat
    };
    std::vector<Face> faces;
    for (auto& s : solids)
    {
        group.meshes.emplace_back(gs);
        addTo(group.meshes.back(), s);
        for (const Tri& t : s)
        {
            i64 lo = 1LL << 40, hi = -lo;
            for (auto& p : t.v)
                lo = std::min(lo, p.z), hi = std::max(hi, p.z);
            top = std::max(top, hi);
            low = std::min(low, lo);
            const double ux = t.v[1].x - t.v[0].x, uy = t.v[1].y - t.v[0].y, uz = t.v[1].z - t.v[0].z, wx = t.v[2].x - t.v[0].x, wy = t.v[2].y - t.v[0].y, wz = t.v[2].z - t.v[0].z;
            const double nx = uy * wz - uz * wy, ny = uz * wx - ux * wz, nz = ux * wy - uy * wx;
            const double across = std::hypot(nx, ny);
            faces.push_back({ lo, hi, across == 0 ? -1 : nz == 0 ? 1e18 : across / std::fabs(nz) });
        }
        what += " |";
        for (const Tri& t : s)
            if (t.v[0].y == 10000 && t.v[1].y == 10000 && t.v[2].y == 10000)
                what += " " + show(t.v[2]);
    }
    if (! runModel())
    {
        bad(what + ": slicing failed");
        return false;
    }
    std::vector<i64> allowed;
    for (i64 h = v.thick + v.variation; h >= v.thick - v.variation && h > 0; h -= v.step)
        allowed.push_back(h);
    const SliceMeshStorage& m = *storage->meshes[0];
    std::vector<i64> thick;
    for (auto& l : m.layers)
        thick.push_back(l.thickness);
    for (auto& mm : storage->meshes)
        if (! heights(what, *mm, v.first, thick, (raft ? i64(Raft::getTotalThickness()) + gap : 0), overlap))
            return false;
    i64 z = v.first;
    for (size_t l = 1; l < thick.size(); l++)
    {
        const i64 h = thick[l], prev = thick[l - 1];
        if (std::find(allowed.begin(), allowed.end(), h) == allowed.end())
        {
            bad(what + ": layer " + std::to_string(l) + " of " + std::to_string(h) + " is none of the allowed heights");
            return false;
        }
        // 1 fits, 0 doesn't, 2 on the limit, 3 nothing there
        auto fits = [&](i64 t)
        {
            const i64 reach = z + (v.tol == SlicingTolerance::MIDDLE ? t / 2 : t);
            double least = 1e300;
            bool some = false, unsure = false;
            for (const Face& f : faces)
                if (f.lo <= reach && f.hi >= z)
                {
                    some = true;
                    unsure = unsure || std::llabs(f.lo - reach) <= 1 || std::llabs(f.hi - z) <= 1;
                    if (f.tan >= 0)
                        least = std::min(least, f.tan);
                }
            if (! some)
                return 3;
            if (least > 1e200)
                return unsure ? 2 : 1;
            const double run = t / least;
            if (unsure || std::fabs(run - v.threshold) < 0.5)
                return 2;
            return run <= v.threshold ? 1 : 0;
        };
        std::vector<i64> reach;
        bool nothing = false, unsure = false;
        for (i64 t : allowed)
        {
            const int f = fits(t);
            nothing = nothing || f == 3;
            unsure = unsure || f == 2;
            if (std::llabs(t - prev) <= v.step)
                reach.push_back(t);
        }
        if (nothing)
        {
            z += h;
            continue;
        }
        if (! reach.empty() && std::llabs(h - prev) > v.step)
        {
            bad(what + ": layer " + std::to_string(l) + " of " + std::to_string(h) + " follows one of " + std::to_string(prev));
            return false;
        }
        if (! unsure)
        {
            i64 expect = reach.empty() ? (prev > allowed[0] ? allowed[0] : allowed.back()) : reach.back();
            for (i64 t : reach)
                if (fits(t) == 1)
                {
                    expect = t;
                    break;
                }
            if (h != expect)
            {
                bad(what + ": layer " + std::to_string(l) + " at " + std::to_string(z) + " is " + std::to_string(h) + " thick, " + std::to_string(expect) + " expected");
                return false;
            }
        }
        z += h;
        vh::trans(1);
    }
    if (z <= top || (thick.size() > 2 && z - thick.back() > top))
    {
        bad(what + ": layers up to " + std::to_string(z) + ", model up to " + std::to_string(top));
        return false;
    }
    // every layer whose upper side is within the model is filled
    for (size_t i = 0; i < solids.size() && v.tol == SlicingTolerance::MIDDLE; i++)
    {
        i64 up = 0;
        for (size_t l = 0; l < thick.size(); l++)
        {
            up += thick[l];
            const std::vector<Seg> cut = section(solids[i], up + 1e-6);
            double area = 0;
            for (const Seg& g : cut)
                area += (g.ax * g.by - g.bx * g.ay) / 2;
            if (area > 0 && area < 2e6)
                continue;
            if (filled(storage->meshes[i]->layers[l]) != (area > 0))
            {
                bad(what + ": layer " + std::to_string(l) + " at " + std::to_string(up) + (area > 0 ? " is empty" : " is filled"));
                return false;
            }
        }
    }
    if (remove)
    {
        size_t empty = 0;
        while (empty < m.layers.size() && ! filled(m.layers[empty]))
            empty++;
        if (empty < m.layers.size() && solids.size() == 1)
        {
            for (SliceLayer& l : storage->meshes[0]->layers)
                for (SliceLayerPart& p : l.parts)
                {
                    p.print_outline = p.outline;
                    p.wall_toolpaths.resize(1);
                    p.wall_toolpaths[0].resize(1);
                }
            FffPolygonGenerator gen;
            size_t layers = storage->print_layer_count;
            gen.removeEmptyFirstLayers(*storage, layers);
            std::vector<i64> left(thick.begin() + empty, thick.end());
            left[0] = v.first;
            if (! heights(what + ", first layers removed", m, v.first, left.size() == 1 ? std::vector<i64>{ v.first } : left, (raft ? i64(Raft::getTotalThickness()) + gap : 0), overlap))
                return false;
        }
    }
    vh::outcome(vh::hash(std::to_string(thick.size()) + ":" + std::to_string(z)));
    vh::state(vh::hash(what));
    return true;
}

static void explore14()
{
    const bool T = vh::thorough();
    const std::vector<SlicingTolerance> tols = { SlicingTolerance::MIDDLE, SlicingTolerance::INCLUSIVE, SlicingTolerance::EXCLUSIVE };
    const std::vector<i64> firsts = { 200, 300, 100, 50, 260 }, thicks = { 200, 100, 300, 60 };
    // one box of every height
    for (auto tol : tols)
        for (i64 first : firsts)
            for (i64 thick : thicks)
                for (int where = 0; where < 4; where++)
                {
                    if (! vh::begin("box %s first %lld height %lld place %d", tolName(tol), (long long)first, (long long)thick, where))
                        continue;
                    for (i64 h = 40; h <= (T ? 2500 : 1300); h += T ? 5 : 10)
                        if (! boxes({ { where == 1 ? 40 : where == 2 ? 730 : where == 3 ? 1000 : 0, h, "", tol } }, first, thick, false, true))
                            break;
                }
    // on a raft
    for (auto tol : tols)
        for (i64 first : { 200, 300, 100 })
            for (i64 thick : { 200, 100 })
            {
                if (! vh::begin("box on a raft %s first %lld height %lld", tolName(tol), (long long)first, (long long)thick))
                    continue;
                for (i64 z0 : { 0, 90, 500 })
                    for (i64 h = 50; h <= 1200; h += 50)
                        if (! boxes({ { z0, h, "", tol } }, first, thick, true, true))
                            goto nextr;
            nextr:;
            }
    // several meshes of all kinds
    const std::vector<const char*> kinds = { "", "infill_mesh", "support_mesh", "cutting_mesh", "anti_overhang_mesh" };
    for (auto tol : tols)
        for (auto tol2 : tols)
            for (auto kind : kinds)
            {
                if (! vh::begin("two meshes %s %s %s", tolName(tol), tolName(tol2), kind))
                    continue;
                for (i64 first : { 200, 300 })
                    for (i64 z0 : { 0, 400 })
                        for (i64 h1 = 100; h1 <= 1000; h1 += T ? 50 : 150)
                            for (i64 h2 = 100; h2 <= 1000; h2 += T ? 50 : 150)
                                if (! boxes({ { z0, h1, "", tol }, { 0, h2, kind, tol2 } }, first, 200, false, *kind == 0) || ! boxes({ { 0, h2, kind, tol2 }, { z0, h1, "", tol } }, first, 200, false, false))
                                    goto next2;
            next2:;
            }
    // adaptive heights
    std::vector<Vary> varies;
    for (i64 step : { 10, 40, 50, 100 })
        for (i64 variation : { 0, 40, 100, 150 })
            for (i64 first : { 200, 300, 100, 270 })
                for (i64 threshold : { 50, 200, 600 })
                    varies.push_back({ 150, first, variation, step, threshold, SlicingTolerance::MIDDLE });
    const size_t plain = varies.size();
    for (size_t i = 0; i < plain; i += 7)
    {
        Vary v = varies[i];
        v.tol = SlicingTolerance::INCLUSIVE;
        varies.push_back(v);
        v.thick = 100;
        v.variation = 120; // down to less than nothing
        varies.push_back(v);
    }
    const std::vector<i64> dz = { 300, 900, 2000 }, widths = { 3000, 3100, 3700, 5000, 9000 };
    for (size_t c = 0; c < varies.size(); c++)
    {
        if (! vh::begin("adaptive #%zu", c))
            continue;
        int k = 0;
        for (i64 a : dz)
            for (i64 b : dz)
                for (i64 w0 : widths)
                    for (i64 w1 : widths)
                        for (i64 w2 : widths)
                        {
                            k++;
                            if ((k + c) % (T ? 7 : 59))
                                continue;
                            const i64 z0 = k % 3 == 0 ? 460 : 0;
                            if (! adaptive({ profile(20000, { z0, z0 + a, z0 + a + b }, { w0, w1, w2 }) }, varies[c], k % 2, true))
                                goto nexta;
                        }
        // beside something else
        for (i64 a : dz)
            for (i64 z0 : { 0, 800, 3500 })
                for (size_t w = 0; w < widths.size(); w++)
                    if (! adaptive({ profile(20000, { 0, a }, { widths[w], widths[(w * 3 + c) % widths.size()] }), profile(50000, { z0, z0 + 600 }, { widths[(w + c) % widths.size()], 3000 }) }, varies[c], 0, false))
                        goto nexta;
    nexta:;
    }
}

static void explore()
{
    if (std::string(CHECK) == "C13")
        explore13();
    else
        explore14();
}
int main(int argc, char** argv)
{
    spdlog::set_level(spdlog::level::off);
    return vh::main_(argc, argv, explore, 1);
}
