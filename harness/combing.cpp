// C24: every travel between the points of a lattice over every small region, for several wall distances.
#include "pathPlanning/Comb.h"
#include "pathPlanning/CombPaths.h"
#include "shapes.h"
#include "vh.h"
#include "world.h"
using namespace cura;
using namespace vs;
namespace
{
struct Limits
{
    coord_t min_in, opt_in, offset, avoid, move_in, ignored;
    const char* name;
};
struct Query
{
    P p;
    int comp; // component, or -1: outside
    bool middle = false; // of a cell
};
/*! does the segment properly cross the border of the region, or is one of its ends outside it? */
bool leaves(P a, P b, const Paths& r)
{
    for (const Path& q : r)
        for (size_t i = 0; i < q.size(); i++)
        {
            const P c = q[i], d = q[(i + 1) % q.size()];
            const i128 s1 = cross(a, b, c), s2 = cross(a, b, d), s3 = cross(c, d, a), s4 = cross(c, d, b);
            if (((s1 > 0 && s2 < 0) || (s1 < 0 && s2 > 0)) && ((s3 > 0 && s4 < 0) || (s3 < 0 && s4 > 0)))
                return true;
        }
    return ! (evenOdd(a, r) || onBorder(a, r)) || ! (evenOdd(b, r) || onBorder(b, r));
}
bool hits(P a, P b, const Paths& r) // enters the interior (proper crossing or an end inside)
{
    for (const Path& q : r)
        for (size_t i = 0; i < q.size(); i++)
        {
            const P c = q[i], d = q[(i + 1) % q.size()];
            const i128 s1 = cross(a, b, c), s2 = cross(a, b, d), s3 = cross(c, d, a), s4 = cross(c, d, b);
            if (((s1 > 0 && s2 < 0) || (s1 < 0 && s2 > 0)) && ((s3 > 0 && s4 < 0) || (s3 < 0 && s4 > 0)))
                return true;
        }
    return (evenOdd(a, r) && ! onBorder(a, r)) || (evenOdd(b, r) && ! onBorder(b, r));
}
P pt(const Point2LL& p)
{
    return { p.X, p.Y };
}
std::string str(const CombPaths& c)
{
    std::string s = c.throughAir ? "(air)" : "";
    for (auto& p : c)
    {
        s += p.cross_boundary ? " X[" : " [";
        for (auto& q : p)
            s += "(" + std::to_string(q.X) + "," + std::to_string(q.Y) + ")";
        s += "]";
    }
    return s;
}
struct Region
{
    Shape outline, min, opt;
    std::vector<Paths> comp; // outline of each component
    std::vector<Paths> comp_min, comp_opt; // its boundaries, a bit larger
    std::vector<int> opt_parts; // in how many parts the preferred region of a component falls
    Paths all, all_less; // outlines; and 20 microns smaller
    std::vector<Query> queries;
    std::shared_ptr<SliceDataStorage> storage;
};
void build(Region& r, const Complex& c, uint64_t m, const Embed& e, const Limits& l, bool simple_queries)
{
    r.all = trace(c, m, e);
    r.outline = toShape(r.all).unionPolygons();
    r.all_less = fromShape(r.outline.offset(-20));
    r.min = r.outline.offset(-l.min_in);
    r.opt = r.outline.offset(-l.opt_in);
    // components of cells that share a side
    const int n = c.cells.size();
    std::vector<int> label(n, -1);
    int comps = 0;
    const auto adjacent = [&](int a, int b)
    {
        int k = 0;
        for (int v : c.cells[a])
            for (int w : c.cells[b])
                k += v == w;
        return k >= 2;
    };
    for (int i = 0; i < n; i++)
        if ((m >> i & 1) && label[i] < 0)
        {
            std::vector<int> todo{ i };
            label[i] = comps;
            uint64_t cm = 1ull << i;
            while (! todo.empty())
            {
                const int a = todo.back();
                todo.pop_back();
                for (int b = 0; b < n; b++)
                    if ((m >> b & 1) && label[b] < 0 && adjacent(a, b))
                    {
                        label[b] = comps;
                        cm |= 1ull << b;
                        todo.push_back(b);
                    }
            }
            comps++;
            const Paths o = trace(c, cm, e);
            const Shape s = toShape(o).unionPolygons();
            r.comp.push_back(o);
            r.comp_min.push_back(fromShape(s.offset(-l.min_in + 3)));
            const Shape so = s.offset(-l.opt_in + 3);
            r.comp_opt.push_back(fromShape(so));
            r.opt_parts.push_back(so.splitIntoParts().size());
        }
    r.storage = std::make_shared<SliceDataStorage>();
    static Mesh mesh;
    mesh.settings_ = Settings();
    mesh.settings_.setParent(&Application::getInstance().current_slice_->scene.extruders[0].settings_);
    auto ms = std::make_shared<SliceMeshStorage>(&mesh, 1);
    for (SingleShape& part : r.outline.splitIntoParts())
    {
        ms->layers[0].parts.emplace_back();
        ms->layers[0].parts.back().outline = part;
        ms->layers[0].parts.back().print_outline = part;
    }
    r.storage->meshes.push_back(ms);
    // the middle of each cell, and points towards each corner of it and each side of it
    for (int i = 0; i < n; i++)
    {
        const P z = center(c, i, e);
        r.queries.push_back({ z, label[i], true });
        const size_t k = c.cells[i].size();
        for (size_t j = 0; j < k; j++)
        {
            const P a0 = c.v[c.cells[i][j]], b0 = c.v[c.cells[i][(j + 1) % k]];
            const P a = e(a0), b = e(b0);
            const P A{ a.x / c.den, a.y / c.den };
            const P M{ (a.x + b.x) / 2 / c.den, (a.y + b.y) / 2 / c.den };
            if (! simple_queries || (i + j) % 2)
                r.queries.push_back({ { M.x + (z.x - M.x) / 12, M.y + (z.y - M.y) / 12 }, label[i] });
            if (! simple_queries)
                r.queries.push_back({ { A.x + (z.x - A.x) / 5, A.y + (z.y - A.y) / 5 }, label[i] });
        }
    }
}
bool inOpt(const Region& r, int comp, P p)
{
    return evenOdd(p, r.comp_opt[comp]) || onBorder(p, r.comp_opt[comp]);
}
/*! do all points near the middle of the cells lie in the preferred region? */
bool li_wide(const Region& r, int comp)
{
    if (r.opt_parts[comp] != 1)
        return false;
    for (const Query& q : r.queries)
        if (q.comp == comp && q.middle && ! inOpt(r, comp, q.p))
            return false;
    return true;
}
void run(const Complex& c, uint64_t m, const Embed& e, const Limits& l, bool simple)
{
    Region r;
    build(r, c, m, e, l, simple);
    const ExtruderTrain& train = Application::getInstance().current_slice_->scene.extruders[0];
    Comb comb(*r.storage, 0, r.min, r.opt, l.offset, l.avoid, l.move_in);
    for (int hop = 0; hop < 3; hop++)
        for (const Query& a : r.queries)
            for (const Query& b : r.queries)
            {
                if (hop && (a.comp == b.comp) == (hop == 1) && a.comp >= 0)
                    continue; // hops matter where the travel leaves
                const bool ain = a.comp >= 0, bin = b.comp >= 0;
                CombPaths paths;
                bool unretract = false, retracted = false;
                vh::trans();
                const Point2LL A(a.p.x, a.p.y), B(b.p.x, b.p.y);
                const bool ok = comb.calc(hop > 0, hop == 2, train, A, B, paths, ain, bin, l.ignored, unretract, retracted);
                const auto what = [&](const char* t)
                {
                    vh::fail("from (%lld,%lld) in %d to (%lld,%lld) in %d hops %d: %s; gives %d %s for outlines %s", a.p.x, a.p.y, a.comp, b.p.x, b.p.y, b.comp, hop, t, ok, str(paths).c_str(), vs::str(r.all).c_str());
                };
                const i128 len2 = dotp(a.p, b.p, b.p);
                if (len2 <= (i128)l.ignored * l.ignored)
                    continue;
                bool reported = ! ok || paths.throughAir || paths.size() > 1;
                for (auto& p : paths)
                    reported |= p.cross_boundary;
                if (ok && paths.empty())
                    return what("no path");
                // the whole travel
                std::vector<P> way{ a.p };
                for (auto& p : paths)
                    for (auto& q : p)
                        way.push_back(pt(q));
                way.push_back(b.p);
                if (ain && bin && a.comp == b.comp)
                {
                    const bool both = inOpt(r, a.comp, a.p) && inOpt(r, b.comp, b.p);
                    const auto close = [&](const Query& q) { return inOpt(r, q.comp, q.p) || distBorder(q.p, r.comp_opt[q.comp]) < l.offset * 0.8; };
                    const Paths& region = both || (li_wide(r, a.comp) && close(a) && close(b)) ? r.comp_opt[a.comp] : r.comp_min[a.comp];
                    if (r.opt_parts[a.comp] != 1)
                    { // too thin for the preferred distance
                        if (! reported)
                            for (size_t i = 1; i < way.size(); i++)
                                if (leaves(way[i - 1], way[i], r.comp[a.comp]))
                                    return what("leaves its part without saying so");
                        continue;
                    }
                    if (paths.size() == 1 && paths[0].size() == 2 && dist(pt(paths[0][0]), pt(paths[0][1]), pt(paths[0][1])) <= l.ignored)
                        continue; // so short from border to border that it may go straight
                    if (reported)
                        return what("leaves the region though there's a way inside it");
                    if (inOpt(r, a.comp, a.p) && paths[0].front() != A && dist(a.p, pt(paths[0].front()), pt(paths[0].front())) > 150)
                        return what("starts elsewhere");
                    if (inOpt(r, b.comp, b.p) && paths[0].back() != B && dist(b.p, pt(paths[0].back()), pt(paths[0].back())) > 150)
                        return what("ends elsewhere");
                    for (size_t i = 2; i + 1 < way.size(); i++)
                        if (leaves(way[i - 1], way[i], region))
                            return what("leaves the region");
                    // to and from the region it stays within the part
                    if (leaves(way[0], way[1], r.comp[a.comp]) || leaves(way[way.size() - 2], way.back(), r.comp[b.comp]))
                        return what("leaves the part on its way to the region");
                    if (unretract != (paths[0].back() != B))
                        return what("wrong about the last move");
                }
                else if (ain || bin)
                {
                    if (! reported)
                        return what("leaves the region without saying so");
                    if (! ok)
                        continue;
                    if (hop == 1)
                        return what("leaves the region where hops are to be used");
                }
                else
                {
                    bool flagged = paths.throughAir;
                    for (auto& p : paths)
                        flagged |= p.cross_boundary;
                    if (ok && ! flagged)
                        for (size_t i = 1; i < way.size(); i++)
                            if (hits(way[i - 1], way[i], r.all_less))
                                return what("crosses the model without saying so");
                }
                uint64_t h = vh::hash(str(paths));
                vh::state(h);
            }
}
void explore()
{
    spdlog::set_level(spdlog::level::off);
    const bool T = vh::thorough();
    Scene& s = world::fresh();
    s.settings.add("travel_avoid_other_parts", "True");
    s.settings.add("travel_avoid_supports", "False");
    const std::vector<Limits> limits = { { 410, 810, 600, 625, 350, 1000, "usual" }, { 410, 410, 500, 300, 400, 0, "close" }, { 410, 1510, 1300, 3000, 450, 500, "far" } };
    const Complex q33 = quads(3, 3), t22 = tris2(2, 2), q43 = quads(4, 3);
    const auto em = embeds(6000);
    const auto thin = embeds(1200);
    for (int li = 0; li < 3; li++)
        for (int ei : { 0, 1, 4, 5, 3 })
        {
            if (! T && (ei == 1 || ei == 3 || (li == 2 && ei != 4)))
                continue;
            for (uint64_t m = 1; m < 512; m++)
                if (vh::begin("cells %llx %s %s", (unsigned long long)m, em[ei].name, limits[li].name))
                    run(q33, m, em[ei], limits[li], ! T && (ei || li));
            for (uint64_t m = 1; m < 256; m++)
                if (vh::begin("triangles %llx %s %s", (unsigned long long)m, em[ei].name, limits[li].name))
                    run(t22, m, em[ei], limits[li], ! T);
            for (uint64_t m = 1; m < 512; m++)
                if (T || m % 3 == 0)
                    if (vh::begin("thin cells %llx %s %s", (unsigned long long)m, thin[ei].name, limits[li].name))
                        run(q33, m, thin[ei], limits[li], ! T);
        }
    if (T)
        for (uint64_t m = 1; m < 4096; m++)
            if (vh::begin("4x3 cells %llx", (unsigned long long)m))
                run(q43, m, em[0], limits[0], true);
}
} // namespace
int main(int argc, char** argv)
{
    return vh::main_(argc, argv, explore, 4);
}
