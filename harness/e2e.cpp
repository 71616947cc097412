// Whole slices: C04, C05, C33, C35, C43
#include "shapes.h"
#include "world.h"
#ifdef SCHEDULES
#include "vsched.h"
#endif
#include "FffProcessor.h"
#include "MeshGroup.h"
#include "mesh.h"
#include <chrono>
#include <map>
#include <set>
#include <sstream>
#include <csignal>
#include <sys/wait.h>
#include <unistd.h>

using namespace cura;
using namespace vs;

namespace
{
constexpr double LIM_OUT = 0.03, LIM_OUT_THIN = 0.08, LIM_HOLE = 0.15; // mm
struct V3
{
    i64 x, y, z;
};
struct Box // cells of a grid
{
    int w, h, d;
    uint64_t bits;
    i64 ux, uy, uz, ox = 50000, oy = 50000;
    i64 thin = 0; // width of the first column
    bool full(int x, int y, int z) const
    {
        return x >= 0 && y >= 0 && z >= 0 && x < w && y < h && z < d && (bits >> (x + w * (y + h * z)) & 1);
    }
    V3 at(int x, int y, int z) const
    {
        return { ox + (thin && x ? thin + (x - 1) * ux : x * ux), oy + y * uy, z * uz };
    }
};
using Options = std::vector<std::pair<std::string, std::string>>;
struct Part
{
    Box box;
    Options options; // of the mesh
};
struct Job
{
    std::vector<Part> parts;
    Options options; // of the whole print
    std::vector<Options> extruders{ {} };
};
void addTo(Mesh& m, const Box& b)
{
    auto p = [&](int x, int y, int z)
    {
        const V3 v = b.at(x, y, z);
        return Point3LL(v.x, v.y, v.z);
    };
    auto quad = [&](Point3LL a, Point3LL c, Point3LL d, Point3LL e)
    {
        m.addFace(a, c, d);
        m.addFace(a, d, e);
    };
    for (int z = 0; z < b.d; z++)
        for (int y = 0; y < b.h; y++)
            for (int x = 0; x < b.w; x++)
            {
                if (! b.full(x, y, z))
                    continue;
                auto q = [&](int dx, int dy, int dz)
                {
                    return p(x + dx, y + dy, z + dz);
                };
                if (! b.full(x - 1, y, z))
                    quad(q(0, 0, 0), q(0, 0, 1), q(0, 1, 1), q(0, 1, 0));
                if (! b.full(x + 1, y, z))
                    quad(q(1, 0, 0), q(1, 1, 0), q(1, 1, 1), q(1, 0, 1));
                if (! b.full(x, y - 1, z))
                    quad(q(0, 0, 0), q(1, 0, 0), q(1, 0, 1), q(0, 0, 1));
                if (! b.full(x, y + 1, z))
                    quad(q(0, 1, 0), q(0, 1, 1), q(1, 1, 1), q(1, 1, 0));
                if (! b.full(x, y, z - 1))
                    quad(q(0, 0, 0), q(0, 1, 0), q(1, 1, 0), q(1, 0, 0));
                if (! b.full(x, y, z + 1))
                    quad(q(0, 0, 1), q(1, 0, 1), q(1, 1, 1), q(0, 1, 1));
            }
    m.finish();
}
std::string slice(const Job& j)
{
    Scene& s = world::fresh(j.extruders.size(), 1);
    for (auto& [k, v] : Options{ { "machine_gcode_flavor", "RepRap (Marlin/Sprinter)" }, { "machine_start_gcode", "" }, { "machine_end_gcode", "" }, { "adhesion_type", "none" } })
        s.settings.add(k, v);
    for (auto& [k, v] : j.options)
        s.settings.add(k, v);
    for (size_t e = 0; e < j.extruders.size(); e++)
        for (auto& [k, v] : j.extruders[e])
            s.extruders[e].settings_.add(k, v);
    MeshGroup& g = s.mesh_groups[0];
    g.settings.setParent(&s.settings);
    for (const Part& p : j.parts)
    {
        std::string nr = "0";
        for (auto& [k, v] : p.options)
            if (k == "extruder_nr")
                nr = v;
        g.meshes.emplace_back();
        Mesh& m = g.meshes.back();
        m.settings_.setParent(&s.extruders[std::stoi(nr)].settings_);
        m.settings_.add("extruder_nr", nr);
        for (auto& [k, v] : p.options)
            m.settings_.add(k, v);
        m.mesh_name_ = "part" + std::to_string(&p - &j.parts[0]);
        addTo(m, p.box);
    }
    g.finalize();
    auto r = std::make_shared<world::Recorder>();
    Application::getInstance().communication_ = r;
    Application::getInstance().current_slice_->compute();
    return r->gcode;
}

// --- a slice in a process of its own: the engine slices once per process -------------------------------------------------------
std::string g_error;
int g_threads = 0;
std::string sliced(const Job& j)
{
    g_error.clear();
    int fd[2];
    if (pipe(fd))
        abort();
    const pid_t pid = fork();
    if (pid == 0)
    {
        alarm(60);
        close(fd[0]);
        if (g_threads)
            Application::getInstance().startThreadPool(g_threads);
        const std::string r = slice(j);
        for (size_t i = 0; i < r.size();)
        {
            const ssize_t n = write(fd[1], r.data() + i, r.size() - i);
            if (n <= 0)
                _exit(9);
            i += n;
        }
        _exit(0);
    }
    close(fd[1]);
    std::string r;
    char buf[65536];
    for (ssize_t n; (n = read(fd[0], buf, sizeof buf)) > 0;)
        r.append(buf, n);
    close(fd[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    vh::trans();
    if (WIFSIGNALED(st))
        g_error = "slicing ends with signal " + std::to_string(WTERMSIG(st));
    else if (WEXITSTATUS(st))
        g_error = "slicing ends with status " + std::to_string(WEXITSTATUS(st));
    return r;
}
// --- the print as the machine executes it --------------------------------------------------------------------------------------
struct Move
{
    double x0, y0, z0, x, y, z, e, f; // e: mm of filament pushed in this move
    int layer, tool;
    const std::string *type, *mesh;
    bool g0;
    bool xy() const
    {
        return x != x0 || y != y0;
    }
    double len() const
    {
        return std::sqrt((x - x0) * (x - x0) + (y - y0) * (y - y0) + (z - z0) * (z - z0));
    }
};
struct Print
{
    std::vector<Move> moves; // those with a change of position or E
    std::map<std::string, std::string> header;
    std::vector<int> layers; // in order
    double elapsed = -1;
    double fil[8] = {}, retracted[8] = {}; // position and how far back from the furthest position
    double temp[8] = {}, waited[8] = {};
    std::vector<std::string> bad;
    std::set<std::string> names{ "" };
    std::vector<double> printed_at; // nozzle temperature of each move
    std::vector<double> fan; // 0..255, of each move
    std::map<int, double> paused; // seconds on each layer
    struct Switch
    {
        size_t move;
        int from, to;
    };
    std::vector<Switch> switches;
    struct Heat
    {
        size_t move;
        int tool;
        double to;
        bool wait;
    };
    std::vector<Heat> heated; // every temperature asked for
    const std::string* intern(const std::string& s)
    {
        return &*names.insert(s).first;
    }
    explicit Print(const std::string& text)
    {
        double x = 0, y = 0, z = 0, f = 0, e[8] = {};
        bool rel = false, head = true;
        int layer = -1000, tool = 0;
        double blow = 0;
        const std::string *type = intern(""), *mesh = intern("");
        for (size_t at = 0; at < text.size();)
        {
            size_t end = text.find('\n', at);
            if (end == std::string::npos)
                end = text.size();
            std::string l = text.substr(at, end - at);
            at = end + 1;
            if (l.empty())
                continue;
            if (l[0] == ';')
            {
                const size_t c = l.find(':');
                const std::string k = l.substr(1, c == std::string::npos ? std::string::npos : c - 1), v = c == std::string::npos ? "" : l.substr(c + 1);
                if (k == "LAYER")
                {
                    layer = std::stoi(v);
                    layers.push_back(layer);
                    head = false;
                }
                else if (k == "TYPE")
                    type = intern(v);
                else if (k == "MESH")
                    mesh = intern(v);
                else if (k == "TIME_ELAPSED")
                    elapsed = std::stod(v);
                else if (head)
                    header[k] = v;
                continue;
            }
            if (const size_t c = l.find(';'); c != std::string::npos)
                l.resize(c);
            std::istringstream in(l);
            std::string cmd, w;
            in >> cmd;
            std::map<char, double> a;
            while (in >> w)
                a[w[0]] = w.size() > 1 ? atof(w.c_str() + 1) : 0;
            if (cmd == "G0" || cmd == "G1")
            {
                Move m{ x, y, z, x, y, z, 0, f, layer, tool, type, mesh, cmd == "G0" };
                if (a.count('F'))
                    m.f = f = a['F'] / 60;
                if (a.count('X'))
                    m.x = x = a['X'];
                if (a.count('Y'))
                    m.y = y = a['Y'];
                if (a.count('Z'))
                    m.z = z = a['Z'];
                if (a.count('E'))
                {
                    m.e = rel ? a['E'] : a['E'] - e[tool];
                    e[tool] = rel ? e[tool] + a['E'] : a['E'];
                    fil[tool] += m.e;
                }
                if (m.xy() || m.z != m.z0 || m.e)
                {
                    moves.push_back(m);
                    printed_at.push_back(temp[tool]);
                    fan.push_back(blow);
                }
            }
            else if (cmd == "G92")
            {
                if (a.count('E'))
                    e[tool] = a['E'];
            }
            else if (cmd == "M106" || cmd == "M107")
                blow = cmd == "M107" ? 0 : a['S'];
            else if (cmd == "G4")
                paused[layer] += a['P'] / 1000;
            else if (cmd == "M82" || cmd == "M83")
                rel = cmd == "M83";
            else if (cmd == "M104" || cmd == "M109")
            {
                const int t = a.count('T') ? (int)a['T'] : tool;
                if (t < 0 || t > 7)
                    bad.push_back("heats tool " + std::to_string(t));
                else
                {
                    temp[t] = a['S'];
                    heated.push_back({ moves.size(), t, a['S'], cmd == "M109" });
                    if (cmd == "M109")
                        waited[t] = a['S'];
                }
            }
            else if (cmd.size() == 2 && cmd[0] == 'T' && isdigit(cmd[1]))
            {
                switches.push_back({ moves.size(), tool, cmd[1] - '0' });
                tool = cmd[1] - '0';
            }
            else if (cmd != "M105" && cmd != "M140" && cmd != "M190" && cmd != "M204" && cmd != "M205" && cmd != "0")
                bad.push_back("unknown: " + l);
        }
    }
};
const Options& plain()
{
    static const Options o = [] {
        Options r;
        for (const char* k : { "line_width", "wall_line_width", "wall_line_width_0", "wall_line_width_x", "infill_line_width", "skin_line_width", "roofing_line_width", "flooring_line_width", "infill_line_distance", "support_line_width" })
            r.push_back({ k, "0.4" });
        for (const char* k : { "skin_material_flow", "skin_material_flow_layer_0", "wall_0_material_flow_layer_0", "wall_x_material_flow_layer_0", "initial_layer_line_width_factor", "support_interface_material_flow", "support_roof_material_flow", "support_bottom_material_flow" })
            r.push_back({ k, "100" });
        for (const char* k : { "skin_overlap_mm", "infill_overlap_mm", "wall_0_wipe_dist", "infill_wipe_dist", "cool_min_layer_time", "skin_preshrink", "bottom_skin_preshrink", "top_skin_preshrink", "layer_0_z_overlap" })
            r.push_back({ k, "0" });
        r.push_back({ "wall_0_acceleration", "3000" });
        r.push_back({ "wall_0_deceleration", "3000" });
        r.push_back({ "wall_0_start_speed_ratio", "100" });
        r.push_back({ "wall_0_end_speed_ratio", "100" });
        r.push_back({ "wall_0_speed_split_distance", "1" });
        r.push_back({ "support_outside_base_curve_magnitude", "4" });
        r.push_back({ "support_enlarged_wall_thickness", "0" });
        for (const char* k : { "support_base_inside_width", "support_inside_base_height", "support_wall_thickness_bottom_layers", "support_wall_thickness_top_layers", "support_wall_thickness_layer_smooth", "force_support_overhang_mesh", "support_brim_minimum_hole_area" })
            r.push_back({ k, "0" });
        r.push_back({ "support_inside_base_curve_magnitude", "4" });
        r.push_back({ "support_infill_multiplier", "1" });
        r.push_back({ "build_fan_full_layer", "1" });
        r.push_back({ "layer_height_0", "0.2" });
        r.push_back({ "machine_center_is_zero", "true" });
        r.push_back({ "retraction_hop_enabled", "false" });
        return r;
    }();
    return o;
}
double area_of(double diameter)
{
    return M_PI * diameter * diameter / 4;
}

Options parse(const std::string& set)
{
    Options r;
    std::istringstream in(set);
    std::string w;
    while (std::getline(in, w, ';'))
        r.push_back({ w.substr(0, w.find('=')), w.substr(w.find('=') + 1) });
    return r;
}
std::string option(const Options& o, const std::string& k, const std::string& d)
{
    std::string r = d;
    for (auto& [a, b] : o)
        if (a == k)
            r = b;
    return r;
}
uint64_t slab(const Box& b, int z)
{
    return b.bits >> (z * b.w * b.h) & ((1ull << (b.w * b.h)) - 1);
}
Paths outline(const Box& b, int z)
{
    if (z < 0 || z >= b.d || ! slab(b, z))
        return {};
    Paths r = trace(quads(b.w, b.h), slab(b, z), Embed{ 1, 0, 0, 1, 0, 0, "" });
    for (auto& p : r)
        for (auto& q : p)
            q = P{ b.at(q.x, q.y, 0).x, b.at(q.x, q.y, 0).y };
    return r;
}
bool manifold(const Box& b) // no two cells that touch in an edge or a corner only
{
    for (int z = 0; z < b.d; z++)
        if (slab(b, z) && ! unambiguous(b.w, b.h, slab(b, z)))
            return false;
    for (int z = 0; z <= b.d; z++)
        for (int y = 0; y <= b.h; y++)
            for (int x = 0; x <= b.w; x++)
            {
                auto f = [&](int dx, int dy, int dz)
                {
                    return b.full(x - dx, y - dy, z - dz);
                };
                for (int k = 0; k < 2; k++)
                {
                    if (f(0, k, 0) == f(1, k, 1) && f(1, k, 0) == f(0, k, 1) && f(0, k, 0) != f(1, k, 0))
                        return false;
                    if (f(k, 0, 0) == f(k, 1, 1) && f(k, 1, 0) == f(k, 0, 1) && f(k, 0, 0) != f(k, 1, 0))
                        return false;
                }
                for (int k = 0; k < 4; k++) // opposite corners
                {
                    const int dx = k & 1, dy = k >> 1;
                    bool lone = true, comp = true;
                    for (int c = 0; c < 8; c++)
                    {
                        const bool on = c == (dx | dy << 1) || c == ((1 - dx) | (1 - dy) << 1 | 4);
                        lone &= f(c & 1, c >> 1 & 1, c >> 2) == on;
                        comp &= f(c & 1, c >> 1 & 1, c >> 2) != on;
                    }
                    if (lone || comp)
                        return false;
                }
            }
    return true;
}
bool narrow(const Box& b, int z) // too narrow to print
{
    for (int y = 0; y < b.h; y++)
    {
        double widest = 0;
        i64 run = 0;
        for (int x = 0; x < b.w; x++)
            widest = std::max<double>(widest, run = b.full(x, y, z) ? run + b.at(x + 1, 0, 0).x - b.at(x, 0, 0).x : 0);
        if (widest > 0 && widest < 1500)
            return true;
    }
    return false;
}
double expected_z(int l)
{
    return 0.2 * (l + 1);
}
double width(const Move& m, double h = 0.2)
{
    return m.len() > 0.01 ? m.e * area_of(2.85) / m.len() / h : 0;
}
#define IS(c) (std::string(CHECK) == c)
// What holds of every print: the machine never extrudes on the way, primes what it retracted, reports what it did
struct Sheet
{
    std::string text;
    Print p;
    std::vector<std::vector<const Move*>> on; // extrusions of each layer
    explicit Sheet(const Job& j)
        : text(sliced(j))
        , p(text)
    {
    }
    bool basics(int layers, double ratio = 1)
    {
        if (! g_error.empty())
        {
            vh::fail("%s", g_error.c_str());
            return false;
        }
        for (auto& b : p.bad)
        {
            vh::fail("%s", b.c_str());
            return false;
        }
        on.resize(layers);
        if ((int)p.layers.size() != layers)
        {
            vh::fail("%zu layers are printed, the model has %d", p.layers.size(), layers);
            return false;
        }
        for (int l = 0; l < layers; l++)
            if (p.layers[l] != l)
            {
                vh::fail("layer %d is printed as number %d", p.layers[l], l);
                return false;
            }
        if (auto h = p.header.find("LAYER_COUNT"); h == p.header.end() || std::stoi(h->second) != layers)
            vh::fail("the header says LAYER_COUNT %s for %d layers", h == p.header.end() ? "nothing" : h->second.c_str(), layers);
        double back[8] = {}, box[6] = { 1e9, 1e9, 1e9, -1e9, -1e9, -1e9 }, used[8] = {};
        for (const Move& m : p.moves)
        {
            used[m.tool] += m.e;
            if (m.g0 && m.e)
                vh::fail("%g mm of filament move during a travel to (%g,%g)", m.e, m.x, m.y);
            if (m.e && ! m.xy())
            {
                back[m.tool] -= m.e;
                if (back[m.tool] < -1e-4)
                    vh::fail("%g mm more are primed than were retracted at (%g,%g,%g)", -back[m.tool], m.x, m.y, m.z);
                if (m.z != m.z0 && IS("C35"))
                    vh::fail("the filament moves by %g while the nozzle rises from %g to %g", m.e, m.z0, m.z);
            }
            else if (m.e < 0)
                vh::fail("the filament is pulled back by %g while moving to (%g,%g)", -m.e, m.x, m.y);
            else if (m.e > 0)
            {
                if (std::abs(back[m.tool]) > 1e-4)
                    vh::fail("layer %d: the line to (%g,%g) is extruded with %g mm of filament retracted", m.layer, m.x, m.y, back[m.tool]);
                if (m.layer < 0 || m.layer >= layers)
                    vh::fail("something is printed on layer %d", m.layer);
                else
                    on[m.layer].push_back(&m);
                if (m.f <= 0 || m.f > 300)
                    vh::fail("the line to (%g,%g) is printed at %g mm/s", m.x, m.y, m.f);
                const double q[] = { m.x, m.y, m.z, m.x0, m.y0, m.z0 };
                for (int k = 0; k < 6; k++)
                    box[k % 3] = std::min(box[k % 3], q[k]), box[3 + k % 3] = std::max(box[3 + k % 3], q[k]);
            }
        }
        const char* names[] = { "MINX", "MINY", "MINZ", "MAXX", "MAXY", "MAXZ" };
        for (int k = 0; k < 6; k++)
            if (auto h = p.header.find(names[k]); h != p.header.end())
            {
                double all = box[k]; // the box of everything the nozzle does
                for (const Move& m : p.moves)
                {
                    const double q[] = { m.x, m.y, m.z, m.x0, m.y0, m.z0 };
                    all = k < 3 ? std::min({ all, q[k], q[3 + k] }) : std::max({ all, q[k - 3], q[k] });
                }
                const double v = std::stod(h->second);
                if (v > std::max(all, box[k]) + 0.006 || v < std::min(all, box[k]) - 0.006)
                    vh::fail("the header says %s %s, the printed lines reach %g, the nozzle %g", names[k], h->second.c_str(), box[k], all);
            }
            else
                vh::fail("the header lacks %s", names[k]);
        if (auto h = p.header.find("TIME"); h == p.header.end() || std::abs(std::stod(h->second) - p.elapsed) > 1.001)
            vh::fail("the header promises %s s, the print takes %g s", h == p.header.end() ? "no" : h->second.c_str(), p.elapsed);
        if (auto h = p.header.find("Filament used"); h == p.header.end())
            vh::fail("the header doesn't tell the filament used");
        else
        {
            std::istringstream in(h->second);
            for (size_t t = 0; t < 8; t++)
            {
                double v = 0;
                char c;
                if (! (in >> v))
                    break;
                in >> c >> c;
                if (std::abs(v - (used[t] + back[t]) / 1000) > 0.0001 + 0.001 * v)
                    vh::fail("the header says tool %zu uses %g m of filament, it uses %g m", t, v, (used[t] + back[t]) / 1000);
            }
        }
        return true;
    }
};
// --- C35: volume and outline -----------------------------------------------------------------------------------------------------
void solid(const Job& j, bool filled, bool thin, double tol)
{
    Sheet s(j);
    int layers = 0;
    for (const Part& p : j.parts)
        layers = std::max<int>(layers, p.box.d * p.box.uz / 200);
    if (! s.basics(layers))
        return;
    double most_out = 0, least = 9, most = 0, hole = 0;
    for (int l = 0; l < layers; l++)
    {
        Paths o;
        for (const Part& p : j.parts)
            for (auto& path : outline(p.box, (l * 200 + 100) / p.box.uz))
                o.push_back(path);
        const double full = area2(o) / 2 / 1e6 * 0.2;
        double vol = 0;
        for (const Move* m : s.on[l])
        {
            vol += m->e * area_of(2.85);
            if (std::abs(m->z - expected_z(l)) > 0.0011 || std::abs(m->z0 - expected_z(l)) > 0.0011)
                return vh::fail("layer %d: a line is printed at %g..%g instead of %g", l, m->z0, m->z, expected_z(l));
            if (m->type->empty() || m->type->find("SUPPORT") != std::string::npos || *m->type == "SKIRT" || *m->type == "PRIME-TOWER")
                return vh::fail("layer %d: a line is printed as '%s'", l, m->type->c_str());
            if (m->mesh->compare(0, 4, "part"))
                return vh::fail("layer %d: a line is printed for mesh '%s'", l, m->mesh->c_str());
            const double w = width(*m);
            if (w > 0)
                for (double t : { 0., 0.2, 0.4, 0.6, 0.8, 1. })
                {
                    const P q{ std::llround((m->x0 + t * (m->x - m->x0)) * 1000), std::llround((m->y0 + t * (m->y - m->y0)) * 1000) };
                    const double d = (distBorder(q, o) * (evenOdd(q, o) ? -1 : 1)) / 1000 + w / 2;
                    most_out = std::max(most_out, d);
                    if (d > (thin ? LIM_OUT_THIN : LIM_OUT))
                        return vh::fail("layer %d: the line (%g,%g)-(%g,%g) of width %g, %s, reaches %g mm beyond the outline", l, m->x0, m->y0, m->x, m->y, w, m->type->c_str(), d);
                }
        }
        if (full > 0 && ! thin)
        {
            const double r = vol / full;
            most = std::max(most, r);
            if (r > 1 + tol)
                return vh::fail("layer %d of %g mm3 is printed with %g mm3 of material", l, full, vol);
            if (filled)
            {
                least = std::min(least, r);
                if (r < 1 - tol)
                    return vh::fail("layer %d of %g mm3 is printed with %g mm3 of material", l, full, vol);
            }
        }
        if (filled && ! thin)
            for (const Part& part : j.parts)
            {
                const Box& b = part.box;
                const int step = vh::thorough() ? 150 : 300;
                for (int y = 77 + l * 31 % step; y < b.h * b.uy; y += step)
                    for (int x = 59 + l * 47 % step; x < b.w * b.ux; x += step)
                    {
                        const P q{ b.ox + x, b.oy + y };
                        if (! evenOdd(q, o))
                            continue;
                        double best = 1e9;
                        for (const Move* m : s.on[l])
                        {
                            if (std::min(m->x0, m->x) * 1000 > q.x + 600 || std::max(m->x0, m->x) * 1000 < q.x - 600 || std::min(m->y0, m->y) * 1000 > q.y + 600
                                || std::max(m->y0, m->y) * 1000 < q.y - 600)
                                continue;
                            best = std::min(
                                best,
                                dist(q, P{ std::llround(m->x0 * 1000), std::llround(m->y0 * 1000) }, P{ std::llround(m->x * 1000), std::llround(m->y * 1000) }) / 1000 - width(*m) / 2);
                            if (best < 0)
                                break;
                        }
                        hole = std::max(hole, best);
                        if (best > (vh::g.key.find("infill_wall_line_count") != std::string::npos ? LIM_HOLE + 0.05 : LIM_HOLE))
                            return vh::fail("layer %d: nothing is printed within %g mm of (%lld,%lld)", l, best, q.x, q.y);
                    }
            }
    }
    if (getenv("E2E_STAT"))
        fprintf(stderr, "out %g vol %g..%g hole %g %s\n", most_out, least, most, hole, vh::g.key.c_str());
}
void solids()
{
    struct Set
    {
        const char* text;
        bool filled;
    };
    const Set sets[] = {
        { "", true },
        { "top_layers=1;bottom_layers=1", true },
        { "top_layers=0;bottom_layers=0;initial_bottom_layers=0;infill_pattern=zigzag", true },
        { "top_layers=0;bottom_layers=0;initial_bottom_layers=0;infill_wall_line_count=1", true },
        { "wall_line_count=0", true },
        { "wall_line_count=1;top_bottom_pattern=zigzag", true },
        { "wall_line_count=2;top_bottom_pattern_0=zigzag;z_seam_type=random", true },
        { "wall_line_count=8;inset_direction=inside_out", true },
        { "relative_extrusion=true", true },
        { "retraction_combing=all", true },
        { "retraction_combing=noskin;retraction_min_travel=0.5;retraction_hop_enabled=true;retraction_hop_only_when_collides=false", true },
        { "retraction_combing=infill;retraction_hop_enabled=true;retraction_hop_only_when_collides=true", true },
        { "infill_before_walls=false;optimize_wall_printing_order=false;travel_retract_before_outer_wall=false", true },
        { "alternate_extra_perimeter=true;infill_enable_travel_optimization=true;top_layers=0;bottom_layers=0", true },
        { "skin_outline_count=0;skin_monotonic=true;skin_angles=[0,30]", true },
        { "skin_outline_count=2;skin_alternate_rotation=true;material_alternate_walls=true", true },
        { "retract_at_layer_change=true;retraction_extrusion_window=0;z_seam_type=back", true },
        { "z_seam_type=shortest;fill_outline_gaps=true;group_outer_walls=false", true },
        { "roofing_layer_count=1;flooring_layer_count=1;roofing_line_width=0.4;flooring_line_width=0.4", true },
        { "cool_min_layer_time=4;cool_lift_head=false", true },
        { "retraction_enable=false", true },
        { "top_layers=2;bottom_layers=2;infill_line_distance=2;infill_sparse_density=20", false },
        { "top_layers=0;bottom_layers=0;infill_line_distance=1.6;infill_sparse_density=25;infill_pattern=grid;zig_zaggify_infill=true", false },
        { "top_layers=1;bottom_layers=0;infill_line_distance=2;infill_pattern=gyroid", false },
        { "top_layers=1;bottom_layers=1;infill_line_distance=3;infill_pattern=triangles;infill_wall_line_count=1", false },
        { "top_layers=0;bottom_layers=0;infill_line_distance=0", false },
        { "top_layers=0;bottom_layers=0;infill_line_distance=2;infill_sparse_thickness=0.4;infill_multiplier=2", false },
        { "coasting_enable=true", false },
        { "top_layers=1;bottom_layers=1;infill_pattern=concentric;infill_line_distance=1;gradual_infill_steps=1;gradual_infill_step_height=0.4", false },
        { "top_layers=1;bottom_layers=1;infill_pattern=cubicsubdiv;infill_line_distance=2;magic_mesh_surface_mode=normal;minimum_infill_area=2", false },
        { "top_layers=1;bottom_layers=1;infill_pattern=lightning;infill_line_distance=2", false },
        { "small_feature_max_length=3;small_skin_width=2;meshfix_maximum_resolution=0.5;meshfix_maximum_deviation=0.025", false },
    };
    int k = 0;
    for (const Set& set : sets)
    {
        const int nr = k++;
        auto one = [&](const Box& b, bool thin, double tol = 0.012)
        {
            if (! manifold(b) || ! slab(b, 0))
                return;
            Box c = b;
            while (c.d > 1 && ! slab(c, c.d - 1))
                c.d--; // nothing there
            if (! vh::begin("solid %dx%dx%d %llx of %lldx%lldx%lld at %lld: %s", b.w, b.h, b.d, (unsigned long long)b.bits, b.ux, b.uy, b.uz, b.ox, set.text))
                return;
            Job j;
            j.options = plain();
            for (auto& o : parse(set.text))
                j.options.push_back(o);
            j.parts.push_back({ c, {} });
            vh::state(vh::hash(vh::g.key));
            solid(j, set.filled, thin, tol);
        };
        for (uint64_t bits = 1; bits < 256; bits++)
            one({ 2, 2, 2, bits, 4000, 5000, 600, -3000, 2000 }, false);
        for (uint64_t bits = 1; bits < 512; bits++)
            if (vh::thorough() || (bits * 7 + nr) % 8 == 0)
            {
                one({ 3, 3, 1, bits, 3300, 2900, 400, 1000, 1000 }, false, 0.05);
                one({ 3, 3, 1, bits, 700, 5000, 200, 0, 0 }, true);
                one({ 3, 3, 1, bits, 900, 480, 400, -2000, -1000 }, true);
            }
        for (uint64_t bits = 1; bits < 4096; bits++)
            if ((bits * 11 + nr) % (vh::thorough() ? 9 : 97) == 0)
                one({ 2, 2, 3, bits, 3000, 3000, 200, 100, 100 }, false, 0.045);
    }
}
// --- C43: one rising wall ----------------------------------------------------------------------------------------------------
void spiral(const Job& j, int bottom, bool smooth)
{
    const Box& b = j.parts[0].box;
    const int layers = b.d * b.uz / 200;
    Sheet s(j);
    if (getenv("E2E_DUMP"))
        fputs(s.text.c_str(), stderr);
    if (! s.basics(layers))
        return;
    double px = 0, py = 0, pz = 0; // where the last layer ended
    for (int l = 0; l < layers; l++)
    {
        const double z0 = expected_z(l);
        if (l < bottom)
        {
            for (const Move* m : s.on[l])
                if (std::abs(m->z - z0) > 0.0011 || std::abs(m->z0 - z0) > 0.0011)
                    return vh::fail("layer %d: a line of the bottom is printed at %g..%g instead of %g", l, m->z0, m->z, z0);
            continue;
        }
        const Paths o = outline(b, (l * 200 + 100) / b.uz), before = outline(b, ((l - 1) * 200 + 100) / b.uz);
        const bool same = l == bottom || o == before;
        double round = 0; // length of the wall
        for (const Path& p : o)
            for (size_t i = 0; i < p.size(); i++)
                round += std::hypot(p[i].x - p[(i + 1) % p.size()].x, p[i].y - p[(i + 1) % p.size()].y) / 1000;
        round -= 8 * 0.2;
        std::vector<const Move*> wall = s.on[l];
        for (const Move* m : wall)
            if (*m->type != "WALL-OUTER")
                return vh::fail("layer %d: %s is printed in a spiral", l, m->type->c_str());
        if (l == bottom)
        { // first the flat one
            double flat = 0;
            size_t k = 0;
            for (; k < wall.size() && std::abs(wall[k]->z - z0) < 1e-6 && flat < round - 0.05; k++)
                flat += wall[k]->len();
            if (std::abs(flat - round) > 0.05)
                return vh::fail("layer %d: %g mm of wall are printed under the spiral, the wall is %g mm long", l, flat, round);
            wall.erase(wall.begin(), wall.begin() + k);
            if (wall.empty())
                return vh::fail("layer %d: no spiral is printed", l);
            px = wall[0]->x0, py = wall[0]->y0, pz = z0;
        }
        if (wall.empty())
            return vh::fail("layer %d: nothing is printed", l);
        double total = 0, done = 0;
        for (const Move* m : wall)
            total += std::hypot(m->x - m->x0, m->y - m->y0);
        const bool top = l == layers - 1;
        if (same && (top ? total < round - 0.05 || total > 2 * round + 0.05 : std::abs(total - round) > 0.05))
            return vh::fail("layer %d: the wall printed is %g mm long, that of the model is %g mm", l, total, round);
        const double turn = top && same ? round : total;
        double far = 0; // between the two outlines
        if (! same)
            for (auto [a, c] : { std::pair{ &o, &before }, std::pair{ &before, &o } })
                for (const Path& p : *a)
                    for (const P& q : p)
                        far = std::max(far, distBorder(q, *c) / 1000);
        auto inset = [](const Paths& a, double x, double y) // distance from the middle of the wall of this outline
        {
            const P q{ std::llround(x * 1000), std::llround(y * 1000) };
            const double d = distBorder(q, a) / 1000 * (evenOdd(q, a) ? 1 : -1);
            // the border lies 0.2 away, 0.2829 at the inner corners
            return d < 0.2 ? 0.2 - d : d > 0.2829 ? d - 0.2829 : 0;
        };
        std::set<std::pair<i64, i64>> seen;
        for (size_t k = 0; k < wall.size(); k++)
        {
            const Move* m = wall[k];
            if (std::hypot(m->x0 - px, m->y0 - py) > 0.0025 || std::abs(m->z0 - pz) > 0.0021)
                return vh::fail("layer %d: the spiral jumps from (%g,%g,%g) to (%g,%g,%g)", l, px, py, pz, m->x0, m->y0, m->z0);
            px = m->x, py = m->y, pz = m->z;
            if (m->z < m->z0)
                return vh::fail("layer %d: the spiral comes down from %g to %g", l, m->z0, m->z);
            const double len = std::hypot(m->x - m->x0, m->y - m->y0);
            done += len;
            const double t = done / total;
            if (! top && std::abs(m->z - z0 - 0.2 * t) > 0.0025)
                return vh::fail("layer %d: after %g of %g mm the spiral is at %g instead of %g", l, done, total, m->z, z0 + 0.2 * t);
            if (m->z > z0 + 0.2011)
                return vh::fail("layer %d: the spiral rises to %g", l, m->z);
            const double w = width(*m);
            if (len > 0.3)
            {
                const bool tapers = top && (! same || done > turn + 0.01);
                if (w > 0.404 || (w < 0.396 && l != bottom && ! tapers) || w < (tapers ? 0 : 0.099))
                    return vh::fail("layer %d: the line to (%g,%g) is %g mm wide after %g of %g mm", l, m->x, m->y, w, done, total);
                if (l == bottom && ! top && std::abs(w - 0.4 * (0.25 + 0.75 * t)) > 0.006)
                    return vh::fail("layer %d: the first turn is %g mm wide after %g of it", l, w, t);
            }
            const double from = inset(o, m->x, m->y), of_last = same ? 0 : inset(before, m->x, m->y);
            const bool last = k + 1 == wall.size();
            if (same || last || (! smooth && k > 1))
            {
                if (from > 0.012)
                    return vh::fail("layer %d: the wall at (%g,%g) is %g mm off the outline", l, m->x, m->y, from);
            }
            else if (smooth && far < 0.7)
            {
                if (from > far * (1 - t) + 0.06 || of_last > far * t + 0.06)
                    return vh::fail("layer %d: the wall at (%g,%g) is %g and %g mm off the outlines after %g of the layer", l, m->x, m->y, from, of_last, t);
            }
            else if (smooth && from > 0.85 * (1 - t) + 0.06)
                return vh::fail("layer %d: the wall at (%g,%g) is %g mm off the outline after %g of the layer", l, m->x, m->y, from, t);
        }
        if (! top && same && std::hypot(wall.back()->x - wall[0]->x0, wall.back()->y - wall[0]->y0) > 0.0125)
            return vh::fail("layer %d: the wall isn't closed, it leads from (%g,%g) to (%g,%g)", l, wall[0]->x0, wall[0]->y0, wall.back()->x, wall.back()->y);
        for (const Path& p : o) // all around
            for (size_t i = 0; i < p.size(); i++)
            {
                const P q{ (p[i].x + p[(i + 1) % p.size()].x) / 2, (p[i].y + p[(i + 1) % p.size()].y) / 2 };
                double best = 1e9;
                for (const Move* m : wall)
                    best = std::min(best, dist(q, P{ std::llround(m->x0 * 1000), std::llround(m->y0 * 1000) }, P{ std::llround(m->x * 1000), std::llround(m->y * 1000) }) / 1000);
                // the chord from the end of the last layer to the first corner is short where the outline has a corner near
                double near = 1e9;
                for (const Path& a : o)
                    for (const P& c : a)
                        near = std::min(near, std::hypot(c.x / 1000. - wall[0]->x0, c.y / 1000. - wall[0]->y0));
                if (best > 0.212 + (far > 0.7 || near > 0.9 ? 99 : far))
                    return vh::fail("layer %d: the side at (%lld,%lld) has no wall within %g mm", l, q.x, q.y, best);
            }
    }
    for (const Move& m : s.p.moves)
        if (m.layer > bottom && m.e <= 0 && m.len() > 0.003 && m.z0 < expected_z(layers - 1) - 0.001)
            return vh::fail("layer %d: the nozzle leaves the spiral for (%g,%g,%g)", m.layer, m.x, m.y, m.z);
}
void spirals()
{
    int nr = 0;
    for (const char* set : { "", "smooth_spiralized_contours=false", "initial_bottom_layers=0", "initial_bottom_layers=2;z_seam_type=back", "initial_bottom_layers=1;relative_extrusion=true;z_seam_type=shortest",
                             "retract_at_layer_change=true;retraction_min_travel=0;retraction_combing=all", "cool_min_layer_time=10;cool_min_speed=4", "wall_line_count=3;wall_0_inset=0;z_seam_type=random;initial_bottom_layers=3",
                             "retraction_hop_enabled=true;retraction_hop_only_when_collides=false;travel_retract_before_outer_wall=true;smooth_spiralized_contours=false;initial_bottom_layers=2" })
    {
        nr++;
        Options opts = plain();
        for (auto& o : Options{ { "magic_spiralize", "true" }, { "initial_bottom_layers", "1" }, { "bottom_layers", "1" }, { "top_layers", "0" }, { "infill_line_distance", "0" }, { "wall_line_count", "1" } })
            opts.push_back(o);
        for (auto& o : parse(set))
            opts.push_back(o);
        auto one = [&](const Box& b)
        {
            if (! manifold(b))
                return;
            for (int z = 0; z < b.d; z++)
                if (const Paths o = outline(b, z); o.size() != 1 || narrow(b, z) || (z && (slab(b, z) & slab(b, z - 1)) == 0))
                    return;
            if (! vh::begin("spiral %dx%dx%d %llx of %lldx%lldx%lld, %lld: %s", b.w, b.h, b.d, (unsigned long long)b.bits, b.ux, b.uy, b.uz, b.thin, set))
                return;
            vh::state(vh::hash(vh::g.key));
            Job j;
            j.options = opts;
            j.parts.push_back({ b, {} });
            spiral(j, std::stoi(option(opts, "initial_bottom_layers", "1")), option(opts, "smooth_spiralized_contours", "true") == "true");
        };
        for (uint64_t bits = 1; bits < 512; bits++)
            one({ 3, 3, 1, bits, 3000, 4000, 1000, -2000, 3000 });
        for (uint64_t bits = 1; bits < 256; bits++)
        {
            one({ 2, 2, 2, bits, 6000, 5000, 600, 0, 0 });
            one({ 2, 2, 2, bits, 6000, 5000, 600, 0, 0, 300 });
            one({ 2, 2, 2, bits, 600, 9000, 400, 0, 0, 8000 });
        }
        for (uint64_t bits = 1; bits < 4096; bits++)
            if ((bits * 7 + nr) % (vh::thorough() ? 1 : 7) == 0)
            {
                one({ 2, 2, 3, bits, 6000, 5000, 400, 0, 0, 400 });
                one({ 2, 2, 3, bits, 4000, 4000, 200, 0, 0 });
            }
        for (uint64_t bits = 1; bits < (1u << 18); bits++)
            if ((bits * 5 + nr) % (vh::thorough() ? 29 : 211) == 0)
                one({ 3, 3, 2, bits, 5000, 5000, 600, 0, 0, 500 });
    }
}
// --- C33: several extruders ----------------------------------------------------------------------------------------------------
struct Crew
{
    std::map<std::string, int> of; // "part type" -> tool
    std::set<int> used;
    bool tower;
};
void tools(const Job& j, const Crew& c, int layers)
{
    Sheet s(j);
    if (getenv("E2E_DUMP"))
        fputs(s.text.c_str(), stderr);
    if (! s.basics(layers))
        return;
    const size_t n = j.extruders.size();
    for (auto& w : s.p.switches)
    {
        if (! c.used.count(w.to))
            return vh::fail("tool %d is selected though nothing is printed with it", w.to);
    }
    for (auto& [at, t, temp, wait] : s.p.heated)
        if (temp > 0 && (t >= (int)n || ! c.used.count(t)))
            return vh::fail("tool %d is heated to %g though nothing is printed with it", t, temp);
    double back[8] = {};
    size_t w = 0;
    bool fresh = false; // switched to, not primed yet
    int last_tower = -1; // the last layer with a switch
    for (auto& k : s.p.switches)
        if (k.move < s.p.moves.size())
            last_tower = std::max(last_tower, s.p.moves[k.move].layer);
    std::set<std::string> seen;
    std::set<std::pair<int, int>> on_tower; // layer, tool
    bool extruded[8] = {};
    double temp_min[8], temp_max[8], amount[8];
    for (size_t e = 0; e < n; e++)
    {
        temp_min[e] = std::stod(option(j.extruders[e], "material_final_print_temperature", "185"));
        temp_max[e] = std::max(std::stod(option(j.extruders[e], "material_print_temperature_layer_0", "205")), std::stod(option(j.extruders[e], "material_print_temperature", "200")));
        amount[e] = option(j.options, "retraction_enable", "true") == "true" ? std::stod(option(j.extruders[e], "switch_extruder_retraction_amount", "8")) : 0;
    }
    double hot[8] = {}, to[8] = {}, coldest = 1e9; // simulated
    size_t h = 0;
    for (size_t k = 0; k < s.p.moves.size(); k++)
    {
        const Move& m = s.p.moves[k];
        for (; h < s.p.heated.size() && s.p.heated[h].move <= k; h++)
        {
            to[s.p.heated[h].tool] = s.p.heated[h].to;
            if (s.p.heated[h].wait)
                hot[s.p.heated[h].tool] = s.p.heated[h].to;
        }
        if (m.xy() && m.e > 0)
            coldest = std::min(coldest, hot[m.tool] - temp_min[m.tool]);
        const double dt = m.f > 0 ? std::max(m.len(), m.len() > 0 ? 0 : std::abs(m.e)) / m.f : 0;
        for (size_t e = 0; e < n; e++)
            hot[e] = hot[e] < to[e] ? std::min(to[e], hot[e] + 1.4 * dt) : std::max(to[e], hot[e] - 0.8 * dt);
        for (; w < s.p.switches.size() && s.p.switches[w].move <= k; w++)
        {
            const auto& sw = s.p.switches[w];
            if (sw.from != sw.to && extruded[sw.from] && back[sw.from] < amount[sw.from] - 1e-3)
                return vh::fail("layer %d: tool %d is put away with %g mm of filament retracted instead of %g", m.layer, sw.from, back[sw.from], amount[sw.from]);
            if (sw.from != sw.to && extruded[sw.from])
                fresh = true;
        }
        if (! m.xy())
            back[m.tool] -= m.e;
        if (m.e <= 0 || ! m.xy())
            continue;
        extruded[m.tool] = true;
        const double t = s.p.printed_at[k];
        if (t < temp_min[m.tool] - 0.01 || t > temp_max[m.tool] + 0.01)
            return vh::fail("layer %d: tool %d extrudes at %g degrees", m.layer, m.tool, t);
        if (*m.type == "PRIME-TOWER")
        {
            on_tower.insert({ m.layer, m.tool });
            fresh = false;
            if (! c.tower)
                return vh::fail("layer %d: a prime tower is printed", m.layer);
            if (m.layer > last_tower)
                return vh::fail("layer %d: the prime tower goes on above the last switch of tools on layer %d", m.layer, last_tower);
            continue;
        }
        if (c.tower && fresh && *m.type != "SKIRT")
            return vh::fail("layer %d: tool %d prints %s right after the switch, without a visit to the prime tower", m.layer, m.tool, m.type->c_str());
        const std::string what = (m.mesh->empty() || *m.mesh == "NONMESH" ? std::string("") : *m.mesh) + " " + *m.type;
        auto i = c.of.find(what);
        if (i == c.of.end())
            i = c.of.find(" " + *m.type);
        if (i == c.of.end())
            i = c.of.find("?" + what); // may be absent
        if (i == c.of.end())
            return vh::fail("layer %d: '%s' is printed", m.layer, what.c_str());
        if (i->second >= 0 && i->second != m.tool)
            return vh::fail("layer %d: %s is printed with tool %d instead of %d", m.layer, what.c_str(), m.tool, i->second);
        seen.insert(i->first);
    }
    for (auto& [what, t] : c.of)
        if (what[0] != ' ' && what[0] != '?' && ! seen.count(what))
            vh::fail("no %s is printed", what.c_str());
    if (getenv("E2E_STAT"))
        fprintf(stderr, "coldest %g %s\n", coldest, vh::g.key.c_str());
    if (c.tower && c.used.size() > 1 && on_tower.empty())
        vh::fail("no prime tower is printed");
}
void crews()
{
    struct Set
    {
        const char *text, *name;
    };
    const Set sets[] = {
        { "", "plain" },
        { "prime_tower_enable=true", "tower" },
        { "prime_tower_enable=true;prime_tower_mode=normal;retraction_hop_after_extruder_switch=false", "dense tower" },
        { "retraction_hop_enabled=true;retraction_hop_only_when_collides=false;relative_extrusion=true", "hops" },
        { "prime_tower_enable=true;retraction_hop_after_extruder_switch=true;retraction_hop_after_extruder_switch_height=2;relative_extrusion=true;prime_tower_wipe_enabled=true", "tower, hops" },
        { "prime_blob_enable=false;retraction_enable=false", "no retraction" },
        { "material_initial_print_temperature=200;cool_min_layer_time=20;adhesion_type=skirt;skirt_line_count=2;skirt_gap=1", "slow" },
        { "prime_tower_enable=true;adhesion_type=brim;brim_line_count=2;retraction_combing=all", "tower, brim" },
        { "machine_min_cool_heat_time_window=200;cool_min_layer_time=25;machine_nozzle_cool_down_speed=4;machine_nozzle_heat_up_speed=8", "long window" },
        { "machine_min_cool_heat_time_window=0;machine_nozzle_cool_down_speed=9;machine_nozzle_heat_up_speed=12;cool_min_layer_time=12", "no window" },
    };
    int nr = 0;
    for (const Set& set : sets)
    {
        nr++;
        Options base = plain();
        for (auto& o : Options{ { "wall_line_count", "2" }, { "top_layers", "1" }, { "bottom_layers", "1" }, { "initial_bottom_layers", "1" }, { "infill_line_distance", "1" }, { "skirt_brim_extruder_nr", "-1" }, { "adhesion_extruder_nr", "-1" },
                                { "prime_tower_position_x", "40" }, { "prime_tower_position_y", "30" }, { "prime_tower_size", "10" }, { "prime_tower_min_volume", "2" }, { "ooze_shield_enabled", "false" },
                                { "prime_tower_base_size", "0" }, { "prime_tower_line_width", "0.4" }, { "machine_extruders_share_heater", "false" }, { "small_skin_width", "0" } })
            base.push_back(o);
        for (const char* k : { "wall_extruder_nr", "wall_0_extruder_nr", "wall_x_extruder_nr", "infill_extruder_nr", "top_bottom_extruder_nr", "roofing_extruder_nr", "flooring_extruder_nr" })
            base.push_back({ k, "-1" });
        for (auto& o : parse(set.text))
            base.push_back(o);
        auto extruders = [&](size_t n)
        {
            std::vector<Options> r(n);
            for (size_t e = 0; e < n; e++)
                r[e] = { { "material_print_temperature", std::to_string(210 + 5 * e) },       { "material_print_temperature_layer_0", std::to_string(214 + 5 * e) }, { "material_final_print_temperature", std::to_string(190 + 5 * e) },
                         { "material_standby_temperature", std::to_string(120 + 5 * e) }, { "switch_extruder_retraction_amount", std::to_string(6 + e) },        { "material_initial_print_temperature", std::to_string(200 + 5 * e) },
                         { "cool_min_temperature", std::to_string(210 + 5 * e) } };
            return r;
        };
        const bool tower = option(base, "prime_tower_enable", "") == "true";
        const std::string adhesion = option(base, "adhesion_type", "none");
        auto finish = [&](Job& j, Crew& c, int layers)
        {
            c.tower = tower && c.used.size() > 1;
            c.of[" SKIRT"] = -1;
            vh::state(vh::hash(vh::g.key));
            tools(j, c, layers);
        };
        // every assignment of two or three towers to three extruders
        for (int heights = 0; heights < 27; heights++)
            for (int who = 0; who < 27; who++)
            {
                if ((who * 5 + heights + nr) % (vh::thorough() ? 1 : 11))
                    continue;
                if (! vh::begin("%s: three blocks, heights %d, extruders %d", set.name, heights, who))
                    continue;
                Job j;
                j.options = base;
                j.extruders = extruders(3);
                Crew c;
                int layers = 0;
                for (int p = 0, h = heights, e = who; p < 3; p++, h /= 3, e /= 3)
                {
                    const int n = 2 + h % 3 * 2;
                    layers = std::max(layers, n);
                    j.parts.push_back({ { 1, 1, 1, 1, 4000, 4000, n * 200, p * 6000, 0 }, { { "extruder_nr", std::to_string(e % 3) } } });
                    c.used.insert(e % 3);
                    for (const char* t : { " WALL-OUTER", " WALL-INNER", " SKIN", " FILL" })
                        if (std::string(t) != " FILL" || n > 2)
                            c.of["part" + std::to_string(p) + t] = e % 3;
                }
                finish(j, c, layers);
            }
        // every assignment of the features of one block
        for (int who = 0; who < 256; who++)
        {
            if ((who * 3 + nr) % (vh::thorough() ? 1 : 5))
                continue;
            if (! vh::begin("%s: features of one block by extruders %d", set.name, who))
                continue;
            Job j;
            j.options = base;
            j.extruders = extruders(4);
            Crew c;
            const char* keys[] = { "wall_0_extruder_nr", "wall_x_extruder_nr", "top_bottom_extruder_nr", "infill_extruder_nr" };
            const char* types[] = { " WALL-OUTER", " WALL-INNER", " SKIN", " FILL" };
            Options o{ { "extruder_nr", std::to_string(who & 3) } };
            for (int k = 0, e = who; k < 4; k++, e /= 4)
            {
                o.push_back({ keys[k], std::to_string(e % 4) });
                c.of[std::string("part0") + types[k]] = e % 4;
                c.used.insert(e % 4);
            }
            j.parts.push_back({ { 1, 1, 1, 1, 6000, 6000, 1200, 0, 0 }, o });
            finish(j, c, 6);
        }
        // two models that alternate in height, one upon and in the other
        for (int a = 1; a < 64; a++)
            for (int b = 1; b < 64; b++)
            {
                if (a & b || ((a | b) & 3) == 0 || (a * 7 + b + nr) % (vh::thorough() ? 1 : 7))
                    continue;
                int top = 0;
                bool whole = true;
                for (int z = 0; z < 3; z++)
                {
                    const bool on = (a | b) >> (2 * z) & 3;
                    if (on && z > top)
                        whole = false;
                    if (on)
                        top = z + 1;
                }
                const Box A{ 2, 1, 3, (uint64_t)a, 5000, 5000, 400, 0, 0 }, B{ 2, 1, 3, (uint64_t)b, 5000, 5000, 400, 0, 0 };
                if (! whole || ! manifold(A) || ! manifold(B))
                    continue;
                if (! vh::begin("%s: cells %x and %x of two models", set.name, a, b))
                    continue;
                Job j;
                j.options = base;
                j.extruders = extruders(3);
                Crew c;
                c.used = { 0, 2 };
                j.parts.push_back({ A, { { "extruder_nr", "2" } } });
                j.parts.push_back({ B, { { "extruder_nr", "0" } } });
                for (int p = 0; p < 2; p++)
                    c.of["part" + std::to_string(p) + " WALL-OUTER"] = c.of["part" + std::to_string(p) + " WALL-INNER"] = c.of["part" + std::to_string(p) + " SKIN"] = p ? 0 : 2, c.of["?part" + std::to_string(p) + " FILL"] = p ? 0 : 2;
                finish(j, c, top * 2);
            }
    }
}
#ifdef SCHEDULES
constexpr double LIM_TREE = 0.02;
int g_scramble = 0;
/*! leaves free memory of common sizes behind, in an order that depends on `order` */
void scramble(int order)
{
    if (! order)
        return;
    for (size_t size = 64; size <= 640; size += 16)
    {
        std::vector<void*> v;
        for (int k = 0; k < 60; k++)
            v.push_back(malloc(size)), (void)malloc(16);
        for (int k = 0; k < 60; k++)
        {
            void*& p = v[order == 1 ? 59 - k : order == 2 ? k : (k * (7 + 6 * order) + order) % 60];
            free(p);
            p = nullptr;
        }
    }
}
// --- C04: every schedule ---------------------------------------------------------------------------------------------------------
/*! slices with `threads` threads under one schedule, in a process of its own; `log` is what was chosen where */
std::string scheduled(const Job& j, int threads, const std::vector<int>& pre, std::vector<vsched::Pt>& log)
{
    g_error.clear();
    log.clear();
    int fd[2];
    if (pipe(fd))
        abort();
    const pid_t pid = fork();
    if (pid == 0)
    {
        alarm(100);
        close(fd[0]);
        std::string r;
        vsched::faults = false;
        vsched::unlock_points = true;
        vsched::step_limit = 10000000;
        scramble(g_scramble);
        vsched::execute(
            pre,
            [&]
            {
                Application& a = Application::getInstance();
                a.startThreadPool(threads);
                r = slice(j);
                delete a.thread_pool_;
                a.thread_pool_ = nullptr;
            });
        std::string out = std::to_string(vsched::steps) + " " + std::to_string(vsched::log_.size()) + "\n";
        for (auto& p : vsched::log_)
        {
            out += (char)p.chosen;
            out += (char)p.cost.size();
            out += (char)(p.cost.size() > 1 ? p.cost[1] : 0);
        }
        out += r;
        for (size_t i = 0; i < out.size();)
        {
            const ssize_t n = write(fd[1], out.data() + i, out.size() - i);
            if (n <= 0)
                _exit(9);
            i += n;
        }
        _exit(0);
    }
    close(fd[1]);
    std::string r;
    static char buf[1 << 16];
    for (ssize_t n; (n = read(fd[0], buf, sizeof buf)) > 0;)
        r.append(buf, n);
    close(fd[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    if (WIFSIGNALED(st))
        g_error = "slicing ends with signal " + std::to_string(WTERMSIG(st));
    else if (WEXITSTATUS(st))
        g_error = "slicing ends with status " + std::to_string(WEXITSTATUS(st));
    if (! g_error.empty())
        return "";
    unsigned long long steps = 0, n = 0;
    sscanf(r.c_str(), "%llu %llu", &steps, &n);
    vh::trans(steps);
    const size_t at = r.find('\n') + 1;
    for (size_t k = 0; k < n; k++)
    {
        vsched::Pt p;
        p.chosen = (unsigned char)r[at + 3 * k];
        p.cost.assign((unsigned char)r[at + 3 * k + 1], (unsigned char)r[at + 3 * k + 2]);
        p.cost[0] = 0;
        log.push_back(p);
    }
    return r.substr(at + 3 * n);
}
/*! volume of each type of line on each layer, and the lines of the layer's text that tell what is there */
std::map<std::pair<int, std::string>, double> volumes(const std::string& text)
{
    std::map<std::pair<int, std::string>, double> r;
    Print p(text);
    for (const Move& m : p.moves)
        if (m.xy() && m.e > 0)
            r[{ m.layer, *m.type }] += m.e * area_of(2.85);
    return r;
}
void race(const Job& j, int threads, int bound, int residue, int residues, bool tree)
{
    std::vector<vsched::Pt> log;
    const std::string alone = scheduled(j, 1, {}, log);
    const auto want = tree ? volumes(alone) : decltype(volumes("")){};
    double worst = 0;
    if (! g_error.empty())
        return vh::fail("%s, with one thread", g_error.c_str());
    if (alone.find(";LAYER:1\n") == std::string::npos)
        return vh::fail("nothing is printed");
    auto run = [&](const std::vector<int>& pre, std::vector<vsched::Pt>& lg)
    {
        const std::string r = scheduled(j, threads, pre, lg);
        std::vector<int> dev;
        for (size_t k = 0; k < pre.size(); k++)
            if (pre[k])
                dev.push_back(k), dev.push_back(pre[k]);
        vh::state(vh::mix(vh::hash(vh::g.key), vh::hash(dev.data(), dev.size() * sizeof(int))));
        std::string where;
        for (size_t k = 0; k < dev.size(); k += 2)
            where += " " + std::to_string(dev[k]) + ":" + std::to_string(dev[k + 1]);
        if (! g_error.empty())
        {
            vh::fail("%s, with %d threads, schedule%s of %zu", g_error.c_str(), threads, where.c_str(), lg.size());
            return false;
        }
        if (tree && r != alone) // the shape of branches depends on memory addresses, a known finding
        {
            auto got = volumes(r);
            for (auto& [k, v] : want)
                got[k];
            for (auto& [k, v] : got)
            {
                auto w = want.find(k);
                const double o = w == want.end() ? 0 : w->second;
                worst = std::max(worst, std::abs(v - o) / (0.2 + o));
                if (std::abs(v - o) > LIM_TREE * (0.2 + o))
                {
                    vh::fail("layer %d has %g mm3 of %s instead of %g with one thread (%d threads, schedule%s of %zu)", k.first, v, k.second.c_str(), o, threads, where.c_str(), lg.size());
                    return false;
                }
            }
            return true;
        }
        if (r != alone)
        {
            size_t k = 0;
            while (k < r.size() && k < alone.size() && r[k] == alone[k])
                k++;
            const size_t b = r.rfind('\n', k);
            const size_t from = b == std::string::npos ? 0 : b + 1;
            const size_t layer = r.rfind(";LAYER:", k);
            vh::fail(
                "the G-code differs from that of one thread, after '%s': '%s' instead of '%s' (%d threads, schedule%s of %zu)",
                layer == std::string::npos ? "" : r.substr(layer + 1, r.find('\n', layer) - layer - 1).c_str(),
                r.substr(from, std::min<size_t>(60, r.find('\n', k) - from)).c_str(),
                alone.substr(from, std::min<size_t>(60, alone.find('\n', k) - from)).c_str(),
                threads,
                where.c_str(),
                lg.size());
            return false;
        }
        return true;
    };
    std::vector<vsched::Pt> first;
    if (! run({}, first))
        return;
    if (getenv("E2E_STAT"))
        fprintf(stderr, "%zu choices: %s\n", first.size(), vh::g.key.c_str());
    std::function<bool(const std::vector<int>&, const std::vector<vsched::Pt>&, int)> deeper = [&](const std::vector<int>& pre, const std::vector<vsched::Pt>& lg, int left)
    {
        for (size_t i = pre.size(); i < lg.size(); i++)
        {
            if (pre.empty() && (int)(i % residues) != residue)
                continue;
            for (int alt = 1; alt < (int)lg[i].cost.size(); alt++)
            {
                if (lg[i].cost[alt] > left)
                    continue;
                std::vector<int> np;
                for (size_t k = 0; k < i; k++)
                    np.push_back(lg[k].chosen);
                np.push_back(alt);
                std::vector<vsched::Pt> next;
                if (! run(np, next))
                    return false;
                if (left - lg[i].cost[alt] > 0 && ! deeper(np, next, left - lg[i].cost[alt]))
                    return false;
            }
        }
        return true;
    };
    deeper({}, first, bound);
    if (tree && getenv("E2E_STAT"))
        fprintf(stderr, "tree %g: %s\n", worst, vh::g.key.c_str());
}
/*! the same print with memory handed out in other orders */
void memory(const Job& j)
{
    std::string first;
    for (int order = 0; order < 6; order++)
    {
        // keep what the order of free memory is decided by in the child
        g_scramble = order;
        std::vector<vsched::Pt> log;
        const std::string r = scheduled(j, 1, {}, log);
        g_scramble = 0;
        if (! g_error.empty())
            return vh::fail("%s", g_error.c_str());
        if (! order)
            first = r;
        else if (r != first)
            return vh::fail("the G-code depends on the addresses of objects in memory");
    }
}
#endif
#ifdef FREE
void freely(const Job& j, bool tree)
{
    std::string alone;
    for (int threads : { 1, 4, 2, 8 })
    {
        g_threads = threads;
        const std::string r = sliced(j);
        vh::state(vh::mix(vh::hash(vh::g.key), threads));
        if (! g_error.empty())
            return vh::fail("%s, with %d threads (66: data race)", g_error.c_str(), threads);
        if (threads == 1)
            alone = r;
        else if (r != alone && ! tree)
            return vh::fail("the G-code of %d threads differs from that of one", threads);
    }
}
#endif
#if defined(SCHEDULES) || defined(FREE)
void races()
{
    struct Set
    {
        const char *name, *text;
    };
    const Set sets[] = {
        { "plain", "" },
        { "sparse", "top_layers=1;bottom_layers=1;infill_line_distance=2;infill_pattern=grid;zig_zaggify_infill=true;retraction_combing=all;infill_enable_travel_optimization=true" },
        { "surfaces", "roofing_layer_count=1;flooring_layer_count=1;ironing_enabled=true;skin_monotonic=true;bridge_settings_enabled=true;bridge_interlace_lines=true;small_skin_width=1" },
        { "lightning", "top_layers=1;bottom_layers=0;infill_pattern=lightning;infill_line_distance=2" },
        { "subdivided", "top_layers=1;bottom_layers=0;infill_pattern=cubicsubdiv;infill_line_distance=1;gradual_infill_steps=1;infill_sparse_thickness=0.4" },
        { "random", "z_seam_type=random;infill_start_end_preference=start_random;magic_fuzzy_skin_enabled=true;magic_fuzzy_skin_thickness=0.2;magic_fuzzy_skin_point_dist=0.6;top_layers=1;bottom_layers=1;infill_line_distance=2" },
        { "cooled", "cool_min_layer_time=6;cool_min_layer_time_overhang=8;cool_lift_head=true;meshfix_fluid_motion_enabled=true;material_flow_dependent_temperature=true;wall_0_acceleration=800;wall_0_start_speed_ratio=60" },
        { "support", "support_enable=true;support_structure=normal;support_angle=20;support_type=everywhere;support_interface_enable=true;support_roof_enable=true;support_bottom_enable=true;support_line_distance=1" },
        { "tree", "support_enable=true;support_structure=tree;support_angle=20;support_type=everywhere;support_line_distance=1" },
        { "tree roof", "support_enable=true;support_structure=tree;support_angle=20;support_type=everywhere;support_interface_enable=true;support_roof_enable=true;support_roof_height=0.4;support_line_distance=1" },
        { "raft", "adhesion_type=raft" },
        { "conical", "support_conical_enabled=true;conical_overhang_enabled=true;conical_overhang_angle=30;adhesion_type=brim;ooze_shield_enabled=true;draft_shield_enabled=true" },
        { "adaptive", "adaptive_layer_height_enabled=true;adaptive_layer_height_variation=0.1;adaptive_layer_height_variation_step=0.05;adaptive_layer_height_threshold=0.2" },
        { "mold", "mold_enabled=true;mold_width=2;mold_roof_height=0.4;mold_angle=40" },
    };
    const Box shapes[] = {
        { 1, 1, 1, 1, 6000, 5000, 1200, 0, 0 }, // a block
        { 3, 2, 2, 0xfc1, 4000, 4000, 800, 0, 0 }, // on one foot
        { 2, 2, 3, 0x9f3, 4000, 4000, 400, 0, 0 }, // steps
    };
    int nr = 0;
    for (const Set& set : sets)
    {
        const bool tree = ! std::string(set.name).compare(0, 4, "tree");
        nr++;
        for (size_t b = 0; b < std::size(shapes); b++)
            for (int mesh = 1; mesh <= 2; mesh++)
            {
                if (! vh::thorough() && (mesh == 2 ? b != 0 : (int)b != (tree ? 1 : 1 + nr % 2)))
                    continue;
                Job j;
                j.options = plain();
                for (auto& o : parse(set.text))
                    j.options.push_back(o);
                for (int m = 0; m < mesh; m++)
                {
                    Box x = shapes[b];
                    x.ox += m * 15000;
                    j.parts.push_back({ x, {} });
                }
#ifdef FREE
                if (vh::begin("%s: shape %zu x %d, threads run freely", set.name, b, mesh))
                    freely(j, tree);
#else
                if ((! tree || std::string(set.name) + std::to_string(b) + std::to_string(mesh) == "tree11") && vh::begin("%s: shape %zu x %d, memory in several orders", set.name, b, mesh))
                    memory(j);
                for (int threads : { 2, 3, 4 })
                {
                    const int residues = tree ? 64 : 16;
                    for (int r = 0; r < (vh::thorough() ? residues : 16); r++)
                    {
                        if (! vh::thorough() && (threads == 3 ? (r + nr) % 2 : r))
                            continue;
                        if (! vh::begin("%s: shape %zu x %d with %d threads, part %d of %d", set.name, b, mesh, threads, r, residues))
                            continue;
                        race(j, threads, vh::thorough() && threads < 4 && ! tree ? 2 : 1, vh::thorough() || threads == 3 ? r : -1, residues, tree);
                    }
                }
#endif
            }
    }
}
#endif
// --- C32: cooling --------------------------------------------------------------------------------------------------------------
void cooled(const Job& base, int layers, double least, double slowest, bool lift, double reach, double fan0, double fan_min, double fan_max, int full)
{
    Job j = base;
    auto seconds = [](double v)
    {
        return std::to_string(v);
    };
    Job k = base;
    k.options.push_back({ "cool_min_layer_time", "0" });
    j.options.push_back({ "cool_min_layer_time", seconds(least) });
    for (Job* o : { &j, &k })
        for (auto& [key, v] : Options{ { "cool_min_speed", seconds(slowest) },
                                       { "cool_lift_head", lift ? "true" : "false" },
                                       { "cool_min_layer_time_fan_speed_max", seconds(std::max(least, reach)) },
                                       { "cool_fan_speed_0", seconds(fan0) },
                                       { "cool_fan_speed_min", seconds(fan_min) },
                                       { "cool_fan_speed_max", seconds(fan_max) },
                                       { "cool_fan_full_layer", std::to_string(full + 1) },
                                       { "cool_fan_enabled", "true" } })
            o->options.push_back({ key, v });
    Sheet free(k), s(j);
    if (getenv("E2E_DUMP"))
        fputs(s.text.c_str(), stderr);
    if (! free.basics(layers) || ! s.basics(layers))
        return;
    for (int l = 0; l < layers; l++)
    {
        double at_least = 0, took = 0, would = 0, retract = 0, would_retract = 0;
        bool slow = true, above = true; // all as slow as possible; no line is slower of its own
        int toggles = 0;
        for (const Move* f : free.on[l])
            above = above && f->f >= slowest * 0.999;
        if (s.on[l].size() != free.on[l].size())
            return vh::fail("layer %d: %zu lines are printed instead of %zu", l, s.on[l].size(), free.on[l].size());
        for (size_t i = 0; i < s.on[l].size(); i++)
        {
            const Move &m = *s.on[l][i], &f = *free.on[l][i];
            if (m.x != f.x || m.y != f.y || m.x0 != f.x0 || m.y0 != f.y0)
                return vh::fail("layer %d: (%g,%g)-(%g,%g) is printed instead of (%g,%g)-(%g,%g)", l, m.x0, m.y0, m.x, m.y, f.x0, f.y0, f.x, f.y);
            if (std::abs(m.e - f.e) > 0.00003)
                return vh::fail("layer %d: %g mm of filament are pushed on the way to (%g,%g) instead of %g", l, m.e, m.x, m.y, f.e);
            if (m.f > f.f * 1.001 + 0.002)
                return vh::fail("layer %d: the line to (%g,%g) is printed at %g mm/s instead of %g", l, m.x, m.y, m.f, f.f);
            if (above && m.f < std::min(f.f, slowest) * 0.999 - 0.002)
                return vh::fail("layer %d: the line to (%g,%g) is printed at %g mm/s, below %g", l, m.x, m.y, m.f, std::min(f.f, slowest));
            if (m.f > std::min(f.f, slowest) * 1.001 + 0.002)
                slow = false;
        }
        auto count = [l](const Print& p, double& time, double& back)
        {
            int n = 0;
            for (const Move& m : p.moves)
                if (m.layer == l)
                {
                    if (m.xy() || m.z != m.z0)
                        time += m.len() / m.f;
                    else
                        back += std::abs(m.e) / m.f, n++;
                }
            return n;
        };
        toggles = count(s.p, took, retract);
        count(free.p, would, would_retract);
        const double paused = s.p.paused.count(l) ? s.p.paused.at(l) : 0;
        const double slack = 0.1 + 0.02 * least + 1.2 * retract + (lift ? 0.8 : 0) + (paused ? 1.2 : 0);
        (void)toggles;
        if (paused && ! lift)
            return vh::fail("layer %d: the printer waits %g s", l, paused);
        if (took + retract + (lift ? paused : 0) < least - slack && ! (slow && ! lift))
            return vh::fail("layer %d takes %g s of %g at least, %s", l, took + retract + paused, least, slow ? "with the slowest lines, but does not wait" : "but isn't printed as slowly as possible");
        if (would - slack > least && took > would + slack)
            return vh::fail("layer %d takes %g s, though it may take %g", l, took, would);
        if (above && would + would_retract < least - slack && took > std::max(least, would) + slack && took > would * 1.01)
            return vh::fail("layer %d takes %g s, though %g are enough", l, took, least);
        if (above && paused && took + paused > least + slack)
            return vh::fail("layer %d takes %g s and waits for %g, though %g are enough", l, took, paused, least);
        // the fan
        const double start = l < full && full > 0 ? fan0 + (fan_min - fan0) * l / full : fan_min;
        const double total = took + retract, top = std::max(least, reach);
        auto speed = [&](double t)
        {
            return top > least ? fan_max + (start - fan_max) * std::clamp((t - least) / (top - least), 0., 1.) : start;
        };
        const double a = speed(total - slack), b = speed(total + slack);
        for (size_t i = 0; i < s.p.moves.size(); i++)
            if (above && s.p.moves[i].layer == l && s.p.moves[i].e > 0 && s.p.moves[i].xy())
            {
                const double v = s.p.fan[i] / 2.55;
                if (v < std::min(a, b) - 0.6 || v > std::max(a, b) + 0.6)
                    return vh::fail("layer %d of %g s is printed with the fan at %g%%, not %g%%..%g%%", l, total, v, a, b);
            }
    }
    if (getenv("E2E_DUMP"))
        fputs(s.text.c_str(), stderr);
}
void coolings()
{
    const char* sets[] = {
        "retraction_enable=false",
        "retraction_enable=false;speed_print=60;speed_wall_0=12;speed_wall_x=40;speed_topbottom=25;speed_infill=80;speed_layer_0=10;speed_print_layer_0=10;speed_slowdown_layers=2",
        "retraction_enable=false;top_layers=1;bottom_layers=1;infill_line_distance=2;speed_infill=80;speed_wall_0=3",
        "retraction_enable=true;retraction_min_travel=0.5;retraction_combing=off",
        "retraction_enable=false;small_feature_max_length=20;small_feature_speed_factor=40;wall_line_count=1;infill_line_distance=0;top_layers=0;bottom_layers=1",
        "retraction_enable=false;relative_extrusion=true;wall_0_acceleration=900;wall_0_start_speed_ratio=50;wall_0_end_speed_ratio=50;scarf_joint_seam_length=2;scarf_joint_seam_start_height_ratio=50;scarf_split_distance=1;wall_line_count=2",
    };
    struct Fan
    {
        double reach, fan0, least, most;
        int full;
    };
    const Fan fans[] = { { 10, 0, 50, 100, 4 }, { 30, 100, 20, 80, 2 }, { 0, 30, 70, 40, 0 }, { 60, 10, 10, 100, 6 } };
    int nr = 0;
    for (const char* set : sets)
        for (const Fan& fan : fans)
            for (double least : { 1., 3., 6., 12., 30. })
                for (double slowest : { 2., 10., 25. })
                    for (bool lift : { false, true })
                    {
                        nr++;
                        if (lift && std::strstr(set, "scarf")) // known to push too much; see below
                            continue;
                        auto one = [&](const Box& b)
                        {
                            if (! manifold(b))
                                return;
                            if (! vh::begin(
                                    "cooling %dx%dx%d %llx of %lldx%lldx%lld: %g s, %g mm/s, %s, fan %g %g %g %g %d: %s",
                                    b.w,
                                    b.h,
                                    b.d,
                                    (unsigned long long)b.bits,
                                    b.ux,
                                    b.uy,
                                    b.uz,
                                    least,
                                    slowest,
                                    lift ? "lift" : "stay",
                                    fan.reach,
                                    fan.fan0,
                                    fan.least,
                                    fan.most,
                                    fan.full,
                                    set))
                                return;
                            Job j;
                            j.options = plain();
                            for (auto& o : parse(set))
                                j.options.push_back(o);
                            j.parts.push_back({ b, {} });
                            vh::state(vh::hash(vh::g.key));
                            cooled(j, b.d * b.uz / 200, least, slowest, lift, fan.reach, fan.fan0, fan.least, fan.most, fan.full);
                        };
                        for (uint64_t bits = 1; bits < 16; bits++)
                            if (vh::thorough() || (bits + nr) % 4 == 0)
                                one({ 2, 2, 1, bits, 3000, 4000, 800, 0, 0 });
                        for (uint64_t bits = 0x11; bits < 256; bits++)
                            if (bits & 15 && (bits * 3 + nr) % (vh::thorough() ? 11 : 149) == 0)
                                one({ 2, 2, 2, bits, 6000, 7000, 600, 0, 0 });
                    }
    for (const char* set : sets)
        if (std::strstr(set, "scarf") && vh::begin("a scarf begun after the head was lifted"))
        {
            Job j;
            j.options = plain();
            for (auto& o : parse(set))
                j.options.push_back(o);
            j.parts.push_back({ { 2, 2, 1, 2, 3000, 4000, 800, 0, 0 }, {} });
            vh::state(vh::hash(vh::g.key));
            cooled(j, 4, 30, 2, true, 0, 30, 70, 40, 0);
        }
}
void explore()
{
    if (IS("C32"))
        coolings();
#if defined(SCHEDULES) || defined(FREE)
    if (IS("C04"))
        races();
#endif
    if (IS("C33"))
        crews();
    if (IS("C43"))
        spirals();
    if (IS("C35"))
        solids();
}
} // namespace
int main(int argc, char** argv)
{
    return vh::main_(argc, argv, explore, 1);
}
