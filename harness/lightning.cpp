// Lightning infill (C45): trees under the internal overhangs of stacks of images.
#include "geometry/OpenLinesSet.h"
#include "infill/LightningGenerator.h"
#include "infill/LightningLayer.h"
#include "infill/LightningTreeNode.h"
#include "shapes.h"
#include "sliceDataStorage.h"
#include "vh.h"
#include "world.h"
#include <cstring>
#include <map>
#include <numbers>

using namespace cura;
using namespace vs;

struct S
{
    double ax, ay, bx, by;
};
static double distSeg(double x, double y, const S& s)
{
    const double dx = s.bx - s.ax, dy = s.by - s.ay, l2 = dx * dx + dy * dy;
    const double t = l2 == 0 ? 0 : std::clamp(((x - s.ax) * dx + (y - s.ay) * dy) / l2, 0.0, 1.0);
    return std::hypot(s.ax + t * dx - x, s.ay + t * dy - y);
}
static double distAll(double x, double y, const std::vector<S>& v)
{
    double d = 1e18;
    for (auto& s : v)
        d = std::min(d, distSeg(x, y, s));
    return d;
}
static bool inside(double x, double y, const Paths& ps)
{
    bool r = false;
    for (auto& p : ps)
        for (size_t i = 0; i < p.size(); i++)
        {
            const P &a = p[i], &b = p[(i + 1) % p.size()];
            if ((a.y > y) != (b.y > y) && x < a.x + (y - a.y) * (double)(b.x - a.x) / (double)(b.y - a.y))
                r = ! r;
        }
    return r;
}
static double border(double x, double y, const Paths& ps)
{
    double d = 1e18;
    for (auto& p : ps)
        for (size_t i = 0; i < p.size(); i++)
            d = std::min(d, distSeg(x, y, { (double)p[i].x, (double)p[i].y, (double)p[(i + 1) % p.size()].x, (double)p[(i + 1) % p.size()].y }));
    return d;
}
struct Conf
{
    coord_t lw, d, lh;
    int over, prune, straight;
};
struct Tree
{
    std::vector<S> all; // branches of the layer
    std::vector<P> roots;
    std::vector<S> lines; // what is printed
    uint64_t hash = 3;
    double len = 0;
};
static Scene* scene;
static std::vector<Tree> grow(const std::vector<const Paths*>& stack, const Conf& c, bool support = false)
{
    auto& s = scene->extruders[0].settings_;
    auto mm = [](coord_t v) { return std::to_string((double)v / 1000); };
    s.add("layer_height", mm(c.lh));
    s.add("infill_line_width", mm(c.lw));
    s.add("infill_line_distance", mm(c.d));
    s.add("lightning_infill_overhang_angle", std::to_string(c.over));
    s.add("lightning_infill_prune_angle", std::to_string(c.prune));
    s.add("lightning_infill_straightening_angle", std::to_string(c.straight));
    Mesh mesh(s);
    for (auto& [k, v] : std::vector<std::pair<std::string, std::string>>{ { "infill_wall_line_count", "0" }, { "infill_extruder_nr", "0" } })
        mesh.settings_.add(k, v);
    SliceMeshStorage st(&mesh, stack.size());
    for (size_t l = 0; l < stack.size(); l++)
        if (! stack[l]->empty())
            for (const SingleShape& ss : toShape(*stack[l]).splitIntoParts())
            {
                SliceLayerPart& part = st.layers[l].parts.emplace_back();
                part.outline = ss;
                part.infill_area = ss;
            }
    SupportStorage ss;
    if (support)
    {
        for (auto& [k, v] : std::vector<std::pair<std::string, std::string>>{ { "support_infill_sparse_thickness", mm(c.lh) }, { "support_line_width", mm(c.lw) }, { "support_line_distance", mm(c.d) }, { "support_wall_thickness", "0" }, { "support_extruder_nr", "0" },
                { "support_lightning_overhang_angle", std::to_string(c.over) }, { "support_lightning_prune_angle", std::to_string(c.prune) }, { "support_lightning_straightening_angle", std::to_string(c.straight) } })
            s.add(k, v), scene->mesh_groups[0].settings.add(k, v);
        ss.generated = true;
        ss.supportLayers.resize(stack.size());
        for (size_t l = 0; l < stack.size(); l++)
            for (const SliceLayerPart& part : st.layers[l].parts)
                ss.supportLayers[l].support_infill_parts.emplace_back(part.outline, c.lw, false, 0).infill_area_per_combine_per_density_ = { { part.infill_area } };
    }
    const LightningGenerator g = support ? LightningGenerator(ss) : LightningGenerator(st);
    std::vector<Tree> r(stack.size());
    for (size_t l = 0; l < stack.size(); l++)
    {
        const LightningLayer& layer = g.getTreesForLayer(l);
        Tree& t = r[l];
        for (auto& root : layer.tree_roots)
        {
            t.roots.push_back({ root->getLocation().X, root->getLocation().Y });
            root->visitBranches(
                [&](const Point2LL& a, const Point2LL& b)
                {
                    t.all.push_back({ (double)a.X, (double)a.Y, (double)b.X, (double)b.Y });
                    t.len += std::hypot(b.X - a.X, b.Y - a.Y);
                });
        }
        for (auto& line : layer.convertToLines(toShape(*stack[l]), c.lw))
        {
            t.hash = vh::mix(t.hash, line.size());
            for (auto& p : line)
                t.hash = vh::mix(vh::mix(t.hash, (uint64_t)p.X), (uint64_t)p.Y);
            for (size_t i = 0; i + 1 < line.size(); i++)
                t.lines.push_back({ (double)line[i].X, (double)line[i].Y, (double)line[i + 1].X, (double)line[i + 1].Y });
        }
    }
    return r;
}
static std::map<std::pair<i64, i64>, int> ends(const Tree& t) // 1: a branch ends there
{
    std::map<std::pair<i64, i64>, int> degree;
    for (auto& s : t.all)
        degree[{ (i64)s.ax, (i64)s.ay }]++, degree[{ (i64)s.bx, (i64)s.by }]++;
    for (auto& r : t.roots)
        degree[{ r.x, r.y }] += 2;
    return degree;
}
static void judge(const std::vector<const Paths*>& stack, const Conf& c)
{
    const auto trees = grow(stack, c);
    const double radius = std::max(c.d, c.lw) / 2, wall = c.lh * std::tan(c.over * std::numbers::pi / 180), prune = c.lh * std::tan(c.prune * std::numbers::pi / 180),
                 straight = c.lh * std::tan(c.straight * std::numbers::pi / 180), cell = std::floor(radius / 6);
    if (getenv("VH_DUMP"))
        for (int l = (int)stack.size() - 1; l >= 3; l--)
        {
            fprintf(stderr, "layer %d len %.0f roots %zu\n", l, trees[l].len, trees[l].roots.size());
            for (auto& q : trees[l].all)
                fprintf(stderr, "  (%.0f,%.0f)-(%.0f,%.0f)\n", q.ax, q.ay, q.bx, q.by);
        }
    char conf[100];
    snprintf(conf, sizeof conf, "[distance %lld width %lld height %lld angles %d %d %d]", (i64)c.d, (i64)c.lw, (i64)c.lh, c.over, c.prune, c.straight);
    { // again, after somebody else drew random numbers
        const int n = rand() % 7 + 1;
        for (int i = 0; i < n; i++)
            rand();
        const auto again = grow(stack, c);
        for (size_t l = 0; l < stack.size(); l++)
            if (again[l].hash != trees[l].hash)
                return vh::fail("layer %zu: the second time the lines are others %s", l, conf);
    }
    { // and in support that is to be filled the same way
        const auto again = grow(stack, c, true);
        for (size_t l = 0; l < stack.size(); l++)
            if (again[l].hash != trees[l].hash)
                return vh::fail("layer %zu: as support the lines are others %s", l, conf);
    }
    const Paths none;
    for (int l = (int)stack.size() - 1; l >= 0; l--)
    {
        const Paths& area = *stack[l];
        const Paths& above = l + 1 < (int)stack.size() ? *stack[l + 1] : none;
        const Tree& t = trees[l];
        vh::state(t.hash);
        vh::outcome(t.lines.size());
        // nothing outside
        for (auto& s : t.lines)
        {
            const int n = (int)(std::hypot(s.bx - s.ax, s.by - s.ay) / 200) + 1;
            for (int i = 0; i <= n; i++)
            {
                const double x = s.ax + (s.bx - s.ax) * i / n, y = s.ay + (s.by - s.ay) * i / n;
                vh::trans();
                if (! inside(x, y, area) && border(x, y, area) > 5)
                    return vh::fail("layer %d: (%.0f, %.0f) is printed outside the infill area %s", l, x, y, conf);
            }
        }
        // every tree stands on the wall
        for (auto& r : t.roots)
        {
            vh::trans();
            if (! area.empty() && border((double)r.x, (double)r.y, area) > 5)
                return vh::fail("layer %d: the tree at (%lld, %lld) is not connected to the wall (%.0f away) %s", l, r.x, r.y, border((double)r.x, (double)r.y, area), conf);
        }
        // what is printed are the branches, but for half a line width at junctions
        for (auto& s : t.lines)
        {
            const double x = (s.ax + s.bx) / 2, y = (s.ay + s.by) / 2;
            if (distAll(x, y, t.all) > c.lw / 8.0)
                return vh::fail("layer %d: (%.0f, %.0f) is printed away from the branches %s", l, x, y, conf);
        }
        for (auto& s : t.all)
        {
            const double len = std::hypot(s.bx - s.ax, s.by - s.ay);
            const int n = (int)(len / 200) + 1;
            for (int i = 0; i <= n; i++)
            {
                const double x = s.ax + (s.bx - s.ax) * i / n, y = s.ay + (s.by - s.ay) * i / n;
                if (! inside(x, y, area) || border(x, y, area) < 5)
                    continue;
                vh::trans();
                if (distAll(x, y, t.lines) > c.lw + 5 && border(x, y, area) > c.lw / 2 + 5)
                    return vh::fail("layer %d: the branch at (%.0f, %.0f) is not printed %s", l, x, y, conf);
            }
        }
        // the overhang is supported
        i64 x0 = LLONG_MAX, x1 = LLONG_MIN, y0 = LLONG_MAX, y1 = LLONG_MIN;
        for (auto& p : area)
            for (auto& v : p)
                x0 = std::min(x0, v.x), x1 = std::max(x1, v.x), y0 = std::min(y0, v.y), y1 = std::max(y1, v.y);
        const bool differs = &area != &above && hashPaths(area) != hashPaths(above);
        if (! area.empty() && differs)
            for (i64 x = x0 + 130; x < x1; x += 270)
                for (i64 y = y0 + 130; y < y1; y += 270)
                {
                    const double X = (double)x, Y = (double)y;
                    // (the corners of an offset area are mitred: none of its points is nearer to the border)
                    if (! inside(X, Y, area) || border(X, Y, area) < wall * 1.42 + cell * 1.5 || (! above.empty() && (inside(X, Y, above) || border(X, Y, above) < cell * 1.5)))
                        continue;
                    vh::trans();
                    const double d = distAll(X, Y, t.lines);
                    if (d > radius + cell * 1.5 + c.lw / 2.0)
                        return vh::fail("layer %d: (%.0f, %.0f) has nothing above and no line within %.0f (%.0f) %s", l, X, Y, radius, d, conf);
                }
        if (l == 0)
            break;
        // and stands on something
        const Paths& below = *stack[l - 1];
        const Tree& b = trees[l - 1];
        if (below.empty())
            continue;
        // and nothing starts where there is no overhang
        if (! above.empty() && (&area == &above || hashPaths(area) == hashPaths(above)))
            for (auto& [p, n] : ends(t))
            {
                const double X = (double)p.first, Y = (double)p.second, allowed = straight ? 3 * (prune + straight) : prune + 15;
                if (n != 1 || ! inside(X, Y, area) || border(X, Y, area) < allowed)
                    continue;
                vh::trans();
                if (distAll(X, Y, trees[l + 1].all) > allowed)
                    return vh::fail("layer %d: the branch that ends at (%.0f, %.0f) supports nothing (%.0f away from those above, allowed %.0f) %s", l, X, Y, distAll(X, Y, trees[l + 1].all), allowed, conf);
            }
        if (&area != &below && hashPaths(area) != hashPaths(below))
            continue;
        // (the stretch to the wall may be replaced by another one, so what is followed is where branches end)
        for (auto& [p, n] : ends(t))
        {
            const double X = (double)p.first, Y = (double)p.second, allowed = straight ? 3 * (prune + straight) : prune + 15;
            if (n != 1 || ! inside(X, Y, below) || border(X, Y, below) < allowed)
                continue;
            vh::trans();
            const double d = distAll(X, Y, b.all);
            if (d > allowed)
                return vh::fail("layer %d: the branch that ends at (%.0f, %.0f) is %.0f away from what is below (allowed %.0f) %s", l, X, Y, d, allowed, conf);
        }
    }
}
static bool rectangle(int w, int h, uint64_t m)
{
    for (int a = 0; a < w; a++)
        for (int b = a; b < w; b++)
            for (int c = 0; c < h; c++)
                for (int d = c; d < h; d++)
                {
                    uint64_t r = 0;
                    for (int x = a; x <= b; x++)
                        for (int y = c; y <= d; y++)
                            r |= 1ull << (y * w + x);
                    if (r == m)
                        return true;
                }
    return false;
}
static void explore()
{
    scene = &world::fresh(1, 1);
    scene->mesh_groups[0].settings.setParent(&scene->settings);
    const Complex q = quads(3, 3);
    const bool th = vh::thorough();
    const Conf confs[] = { { 400, 3000, 200, 40, 40, 40 }, { 350, 2000, 300, 40, 40, 40 }, { 400, 4500, 200, 60, 50, 30 }, { 400, 2600, 100, 20, 30, 60 }, { 400, 3000, 250, 40, 55, 0 } };
    const Embed embeds[] = { { 5000, 0, 0, 5000, -7500, -7600, "straight" }, { 4000, 1500, -900, 4600, 83000, -61000, "skew" } };
    const uint64_t lower[] = { 511, 0, 495, 16, 448, 73, 325, 27 }; // below: everything, nothing, a ring, the middle, a row, a column, ...
    for (int e = 0; e < 2; e++)
        for (uint64_t m = 1; m < 512; m++)
        {
            if (! unambiguous(3, 3, m))
                continue;
            if (! th && (m * 7 + e) % 3 && ! rectangle(3, 3, m))
                continue;
            for (size_t k = 0; k < std::size(lower); k++)
            {
                if (! th && (m + k + m / 9) % 2)
                    continue;
                if (lower[k] && ! unambiguous(3, 3, lower[k]))
                    continue;
                for (int c = 0; c < 5; c++)
                {
                    if (! th && (int)((m / 3 + k) % 5) != c)
                        continue;
                    if (! vh::begin("stack place %d image %llu over %zu with %d", e, (unsigned long long)m, k, c))
                        continue;
                    const Paths A = trace(q, m, embeds[e]), B = lower[k] ? trace(q, lower[k], embeds[e]) : Paths{}, C = trace(q, m | lower[k], embeds[e]);
                    std::vector<const Paths*> stack;
                    for (int l = 0; l < 14; l++)
                        stack.push_back(l < 4 ? &A : l < 7 ? &B : l < 10 ? (unambiguous(3, 3, m | lower[k]) ? &C : &A) : &A);
                    judge(stack, confs[c]);
                }
            }
        }
}
int main(int argc, char** argv)
{
    return vh::main_(argc, argv, explore, 8);
}
