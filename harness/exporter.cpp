// The G-code exporter: all short sequences of calls on the real exporter, judged by a machine that reads what was written.
// C06: positions and filament. C08: temperatures, fans, accelerations and jerk.
#include "gcode_export/gcodeExport.h"
#include "WipeScriptConfig.h"
#include "RetractionConfig.h"
#include "gcode_export/FixedGCodePart.h"
#include "gcode_export/GcodeTemplateResolver.h"
#include "raft.h"
#include "vh.h"
#include "world.h"
#include <cmath>
#include <map>
#include <numbers>

using namespace cura;
static const bool MOVES = std::string(CHECK) == "C06";
static const double DIAM[2] = { 2.85, 1.75 };
static double area(int t)
{
    return std::numbers::pi * DIAM[t] * DIAM[t] / 4;
}

struct Line
{
    std::string cmd;
    std::map<char, double> w; // words
    std::string raw;
    bool has(char c) const
    {
        return w.count(c) > 0;
    }
    double at(char c) const
    {
        return w.at(c);
    }
};
static std::vector<Line> parse(const std::string& text)
{
    std::vector<Line> r;
    for (size_t i = 0; i < text.size();)
    {
        size_t e = text.find('\n', i);
        if (e == std::string::npos)
            e = text.size();
        std::string s = text.substr(i, e - i);
        i = e + 1;
        while (! s.empty() && s.back() == '\r')
            s.pop_back();
        Line l;
        l.raw = s;
        if (size_t c = s.find(';'); c != std::string::npos)
            s.resize(c);
        const char* p = s.c_str();
        while (*p)
        {
            if (*p == ' ')
            {
                p++;
                continue;
            }
            if (*p < 'A' || *p > 'Z')
            {
                l.cmd = "?";
                break;
            }
            const char c = *p++;
            char* q;
            const double v = strtod(p, &q);
            const std::string num(p, (const char*)q);
            if (num.empty() || num.find_first_not_of("-0123456789.") != std::string::npos)
            {
                l.cmd = "?";
                break;
            }
            if (l.cmd.empty())
                l.cmd = c + num;
            else if (! l.w.emplace(c, v).second)
                l.cmd = "?";
            p = q;
        }
        if (! l.cmd.empty())
            r.push_back(l);
    }
    return r;
}

struct Conf
{
    EGCodeFlavor flavor;
    bool relative, firmware, offsets, init, code;
    int start;
    double max_offset;
    bool shared_heater, active_tool, scale_fans;
    int fans; // 0: one fan for both, 1: a fan each
    int cool; // during switches
    int limit = 1; // how many of the limited retractions within their window
};
static const std::map<EGCodeFlavor, std::array<const char*, 2>>& flavors()
{
    using F = EGCodeFlavor;
    static const std::map<F, std::array<const char*, 2>> f = {
        { F::MARLIN, { "Marlin", "RepRap (Marlin/Sprinter)" } }, { F::GRIFFIN, { "Griffin", "Griffin" } }, { F::CHEETAH, { "Cheetah", "Cheetah" } },
        { F::ULTIGCODE, { "UltiGCode", "UltiGCode" } }, { F::MAKERBOT, { "MakerBot", "Makerbot" } }, { F::BFB, { "BFB", "BFB" } }, { F::MACH3, { "Mach3", "MACH3" } },
        { F::MARLIN_VOLUMATRIC, { "volumetric", "RepRap (Volumetric)" } }, { F::REPETIER, { "Repetier", "Repetier" } }, { F::REPRAP, { "RepRap", "RepRap (RepRap)" } },
    };
    return f;
}
static std::string name(const Conf& c)
{
    std::string s = flavors().at(c.flavor)[0];
    s += c.relative ? " relative" : "";
    s += c.firmware ? " firmware-retract" : "";
    s += c.offsets ? " nozzle-offsets" : "";
    s += c.init ? " from-start" : "";
    s += c.code ? " switch-code" : "";
    s += c.start ? " second-first" : "";
    s += c.max_offset ? " flow-offset" : "";
    s += c.shared_heater ? " shared-heater" : "";
    s += c.active_tool ? " repeat-tool" : "";
    s += c.scale_fans ? " fans-to-one" : "";
    s += c.fans ? " own-fans" : "";
    if (c.cool)
        s += " cool" + std::to_string(c.cool);
    return s;
}
static Settings* at(size_t e)
{
    return &Application::getInstance().current_slice_->scene.extruders[e].settings_;
}
static void setup(const Conf& c)
{
    Scene& s = world::fresh(2);
    Settings& g = s.settings;
    g.add("machine_gcode_flavor", flavors().at(c.flavor)[1]);
    g.add("relative_extrusion", c.relative ? "true" : "false");
    g.add("machine_firmware_retract", c.firmware ? "true" : "false");
    g.add("machine_use_extruder_offset_to_offset_coords", c.offsets ? "true" : "false");
    g.add("machine_always_write_active_tool", c.active_tool ? "true" : "false");
    g.add("machine_extruders_share_heater", c.shared_heater ? "true" : "false");
    g.add("machine_scale_fan_speed_zero_to_one", c.scale_fans ? "true" : "false");
    g.add("cool_during_extruder_switch", c.cool == 0 ? "unchanged" : c.cool == 1 ? "all_fans" : "only_last_extruder");
    g.add("retraction_enable", "true");
    g.add("retraction_prime_speed", "23");
    g.add("speed_z_hop", "11");
    g.add("speed_travel", "140");
    g.add("layer_height", "0.2");
    g.add("prime_blob_enable", "true");
    g.add("extruder_prime_pos_x", "7.5");
    g.add("extruder_prime_pos_y", "6.25");
    g.add("extruder_prime_pos_z", "1.5");
    g.add("extruder_prime_pos_abs", c.offsets ? "false" : "true");
    g.add("machine_start_gcode", "");
    g.add("machine_nozzle_temp_enabled", "true");
    g.add("material_bed_temp_prepend", "true");
    const char* code = c.code ? "G92 E0\nG1 E2.5\nG1 E0\nG92 E0\n" : "";
    for (size_t e = 0; e < 2; e++)
    {
        Settings& x = s.extruders[e].settings_;
        x.add("material_diameter", e ? "1.75" : "2.85");
        x.add("machine_nozzle_offset_x", e ? "18.002" : "0");
        x.add("machine_nozzle_offset_y", e ? "-3.3" : "0");
        x.add("machine_extruder_start_code", code);
        x.add("machine_extruder_end_code", code);
        x.add("machine_extruder_prestart_code", code);
        x.add("machine_extruder_start_code_duration", "0");
        x.add("machine_extruder_end_code_duration", "0");
        x.add("machine_extruder_change_duration", "0");
        x.add("machine_extruder_cooling_fan_number", e && c.fans ? "1" : "0");
        x.add("material_print_temperature_layer_0", e ? "195" : "205");
        x.add("material_standby_temperature", "150");
    }
}
struct Gcode : GCodeExport
{
    std::string take()
    {
        std::string r;
        for (const auto& p : gcode_parts_)
            r += p->str();
        gcode_parts_.clear();
        prepareNewFixedGCodePart();
        return r;
    }
};
struct Fresh // an exporter in zeroed memory: some members are left to the storage of the object
{
    void* mem = calloc(1, sizeof(Gcode));
    Gcode* g = new (mem) Gcode;
    ~Fresh()
    {
        g->~Gcode();
        free(mem);
    }
};
static std::string g_ops; // for messages
static std::string g_text;
static bool g_bad;
#define BAD(...)                                                                                                                                                                   \
    do                                                                                                                                                                             \
    {                                                                                                                                                                              \
        if (! g_bad)                                                                                                                                                               \
        {                                                                                                                                                                          \
            char msg_[600];                                                                                                                                                           \
            snprintf(msg_, sizeof msg_, __VA_ARGS__);                                                                                                                                    \
            vh::fail("operations%s: %s; written last: %s", g_ops.c_str(), msg_, g_text.c_str());                                                                                      \
        }                                                                                                                                                                          \
        g_bad = true;                                                                                                                                                              \
    } while (0)

// --- C06 -----------------------------------------------------------------------------------------------------------------
struct Step
{
    double fil; // filament moved by the line, in E units
    bool xy, z;
    double f;
    double before; // filament before
    bool fw; // state of the retraction by firmware before
    int tool;
    std::string raw;
};
struct Machine
{
    bool rel = false;
    double e[2] = { 0, 0 }; // registers
    double fil[2] = { 0, 0 };
    bool fw[2] = { false, false };
    bool on[2] = { false, false }; // BFB
    int tool = 0;
    double x = -1e9, y = -1e9, z = -1e9, f = -1;
    double rpm = 0;
    std::vector<Step> steps;

    void run(const std::vector<Line>& lines, EGCodeFlavor fl)
    {
        steps.clear();
        for (const Line& l : lines)
        {
            const char ec = fl == EGCodeFlavor::MACH3 ? 'A' + tool : 'E';
            const int reg = fl == EGCodeFlavor::MACH3 ? tool : 0;
            if (l.cmd == "G0" || l.cmd == "G1")
            {
                Step s{ 0, l.has('X') || l.has('Y'), l.has('Z'), -1, fil[tool], fw[tool], tool, l.raw };
                for (auto& [c, v] : l.w)
                {
                    if (c == 'X')
                        x = v;
                    else if (c == 'Y')
                        y = v;
                    else if (c == 'Z')
                        z = v;
                    else if (c == 'F')
                        f = v;
                    else if (c == ec)
                    {
                        s.fil = rel ? v : v - e[reg];
                        e[reg] = rel ? e[reg] + v : v;
                        fil[tool] += s.fil;
                    }
                    else
                        BAD("the word %c in a move means nothing to the machine", c);
                }
                s.f = f;
                if (l.cmd == "G0" && s.fil > 1e-9 && ! allow_prime_in_travel)
                    BAD("material is pushed on a travel");
                steps.push_back(s);
            }
            else if (l.cmd == "G280")
                ;
            else if (l.cmd == "G92")
            {
                if (! l.has(ec) || l.w.size() != 1)
                    BAD("G92 for another axis");
                else
                    e[reg] = l.at(ec);
            }
            else if (l.cmd == "M82")
                rel = false;
            else if (l.cmd == "M83")
                rel = true;
            else if (l.cmd == "T0" || l.cmd == "T1")
                tool = l.cmd[1] - '0';
            else if (l.cmd == "M135" && l.has('T'))
                tool = (int)l.at('T');
            else if (l.cmd == "G10" || l.cmd == "G11")
            {
                if (l.cmd == "G11" && ! fw[tool])
                    BAD("the machine is told to restore what it didn't retract");
                fw[tool] = l.cmd == "G10";
            }
            else if (l.cmd == "M101" || l.cmd == "M201")
                on[l.cmd[1] - '1'] = true;
            else if (l.cmd == "M103")
                on[tool] = false;
            else if (l.cmd == "M108")
                rpm = l.at('S');
            else if (l.cmd[0] == 'M' || l.cmd == "G4" || l.cmd == "G280")
                ;
            else
                BAD("the machine doesn't know %s", l.raw.c_str());
        }
    }
    bool allow_prime_in_travel = false;
};
struct Want // what was asked for
{
    double dep[2] = { 0, 0 }; // filament deposited, mm
    double r[2] = { 0, 0 }; // retracted, mm
    double prime[2] = { 0, 0 }; // to be primed, mm3
    double prime_speed[2] = { 23, 23 };
    double ahead[2] = { 0, 0 }; // filament pushed ahead for the flow
    std::vector<double> window[2];
    bool primed[2] = { false, false };
    int tool = 0;
    double x = 0, y = 0, z = 20; // of the nozzle that prints, mm
    double layer = 0.3;
    double hop = 0;
    bool unknown_z = false;
    bool left = false;
};

static const char* const OPS[] = { "extrude", "extrude-thin", "extrude-much", "travel", "travel-retract", "travel-prime", "retract", "retract-limited", "unretract", "hop",
                                   "hop-retract", "unhop", "unhop-prime", "leftover", "prime", "reset", "switch", "wipe", "retract-forced", "extrude-here", "layer-up", "prime-train" };
static constexpr int NOPS = std::size(OPS);

static RetractionConfig config(double d, double speed, double ps, double prime, double window, size_t n)
{
    RetractionConfig c{};
    c.distance = d;
    c.speed = speed;
    c.primeSpeed = ps;
    c.prime_volume = prime;
    c.retraction_extrusion_window = window;
    c.retraction_count_max = n;
    return c;
}
struct Sequence
{
    const Conf& c;
    Fresh f;
    Gcode& g;
    Machine m;
    Want w;
    bool vol, bfb;
    int moves = 0;
    bool stub[2] = { false, false }; // BFB: retracted

    Sequence(const Conf& c)
        : c(c)
        , g(*f.g)
    {
        vol = c.flavor == EGCodeFlavor::ULTIGCODE || c.flavor == EGCodeFlavor::MARLIN_VOLUMATRIC;
        bfb = c.flavor == EGCodeFlavor::BFB;
        g.preSetup(c.start);
        g.template_resolver_->prepareForResolving(c.start, {});
        g.setFlowRateExtrusionSettings(c.max_offset, c.max_offset ? 0.2 : 0);
        m.rel = c.relative;
        m.tool = w.tool = c.start;
        g.setZ(300);
        if (c.init)
            start();
        else
            g.take();
        // a first travel makes the position known
        g.writeTravel(Point3LL(1000, 2000, 300), 100.0);
        w.x = 1;
        w.y = 2;
        w.z = w.layer;
        w.unknown_z = false;
        if (bfb)
            stub[w.tool] = true;
        const std::string t = g.take();
        g_text = t;
        m.allow_prime_in_travel = true;
        m.run(parse(t), c.flavor);
        check("after the first travel");
    }
    double mm(double e, int t) const // E to millimetres of filament
    {
        return vol ? e / area(t) : e;
    }
    double off(int t, bool y) const
    {
        return c.offsets && t ? (y ? -3.3 : 18.002) : 0;
    }
    static const RetractionConfig& A()
    {
        static const RetractionConfig r = config(4, 31, 17, 0.3, 10, 90);
        return r;
    }
    RetractionConfig limited = config(2, 37, 13, 0, 0.31 * c.limit, c.limit);
    const RetractionConfig& B() const
    {
        return limited;
    }
    static const RetractionConfig& S()
    {
        static const RetractionConfig r = config(7, 41, 19, 0, 10, 90);
        return r;
    }
    void start()
    {
        SliceDataStorage storage;
        storage.retraction_wipe_config_per_extruder.resize(2);
        for (auto& r : storage.retraction_wipe_config_per_extruder)
            r.retraction_config = A();
        g.initializeExtruderTrains(storage, c.start);
        const std::string t = g.take();
        g_text = t;
        m.rel = false;
        m.run(parse(t), c.flavor);
        if (m.rel != c.relative)
            BAD("the machine was left in the wrong extrusion mode");
        if (m.tool != c.start)
            BAD("the machine was left with tool %d", m.tool);
        if (! bfb)
            retract(A(), false, false, 0, false);
        w.unknown_z = true;
    }
    bool retract(const RetractionConfig& k, bool force, bool change, const double* dist, bool lines = true)
    {
        const int t = w.tool;
        auto& win = w.window[t];
        while (win.size() > k.retraction_count_max && ! win.empty())
            win.erase(win.begin());
        if (! force && k.retraction_count_max == 0)
            return false;
        if (! force && win.size() == k.retraction_count_max && w.dep[t] + w.ahead[t] < win.front() + k.retraction_extrusion_window)
            return false;
        win.push_back(w.dep[t] + w.ahead[t]);
        if (win.size() == k.retraction_count_max + 1)
            win.erase(win.begin());
        const double d = dist ? *dist : k.distance;
        if (std::abs(w.r[t] - d) < 1e-6)
            return true;
        if (c.firmware)
        {
            if (change && w.r[t])
                return true;
        }
        else if (lines)
        {
            if (m.steps.size() < 1)
                BAD("no retraction was written");
            else
            {
                const Step& s = m.steps[0];
                const double v = w.r[t] < d ? (double)k.speed : w.prime_speed[t];
                if (s.xy || s.z || std::abs(s.f - v * 60) > 0.06)
                    BAD("a retraction at feed rate %g, not at %g mm/s", s.f, v);
            }
        }
        if (! c.firmware)
            w.prime_speed[t] = k.primeSpeed;
        w.r[t] = d;
        w.prime[t] += k.prime_volume;
        return true;
    }
    void unretract()
    {
        const int t = w.tool;
        if (! m.steps.empty() && ! c.firmware && ! bfb && (w.r[t] || w.prime[t]))
        {
            bool found = false;
            for (const Step& s : m.steps)
                found |= ! s.xy && ! s.z && s.fil > 0 && std::abs(s.f - w.prime_speed[t] * 60) < 0.06;
            if (! found)
                BAD("material wasn't restored at %g mm/s", w.prime_speed[t]);
        }
        w.r[t] = 0;
        w.dep[t] += w.prime[t] / area(t);
        w.prime[t] = 0;
    }
    void check(const char* what)
    {
        if (g_bad)
            return;
        if (std::abs(m.x - (w.x - off(w.tool, 0))) > 6e-4 || std::abs(m.y - (w.y - off(w.tool, 1))) > 6e-4)
            BAD("%s the machine is at %g %g, not at %g %g", what, m.x, m.y, w.x - off(w.tool, 0), w.y - off(w.tool, 1));
        if (! w.unknown_z && std::abs(m.z - w.z) > 6e-4)
            BAD("%s the machine is at height %g, not at %g", what, m.z, w.z);
        if (m.tool != w.tool)
            BAD("%s the machine uses tool %d", what, m.tool);
        if (m.rel != c.relative)
            BAD("%s the machine is in the wrong extrusion mode", what);
        for (int t = 0; t < 2; t++)
        {
            const double tol = 4e-4 / (vol ? area(t) : 1);
            if (bfb)
            {
                if (m.on[t] && t != w.tool)
                    BAD("%s the other extruder runs", what);
                continue;
            }
            const double want = w.dep[t] - (c.firmware ? 0 : w.r[t]) + w.ahead[t];
            if (std::abs(mm(m.fil[t], t) - want) > tol)
                BAD("%s the filament of extruder %d is at %.5f, not at %.5f mm (%.5f deposited, %.5f retracted)", what, t, mm(m.fil[t], t), want, w.dep[t], w.r[t]);
            if (c.firmware && m.fw[t] != (w.r[t] > 0))
                BAD("%s extruder %d is %sretracted by the firmware", what, t, m.fw[t] ? "" : "not ");
            const double used = g.getTotalFilamentUsed(t);
            if (std::abs(used - w.dep[t] * area(t)) > w.ahead[t] * area(t) + 1e-3 + used * 1e-9)
                BAD("%s extruder %d is said to have used %.5f, not %.5f mm3", what, t, used, w.dep[t] * area(t));
        }
    }
    void go(double dx, double dy)
    {
        w.x += dx;
        w.y += dy;
    }
    Point3LL pos() const
    {
        return Point3LL(std::llround(w.x * 1000), std::llround(w.y * 1000), std::llround(w.layer * 1000));
    }
    bool retracts() const // amounts in moves are only asked from machines that don't retract by themselves
    {
        return ! c.firmware && ! bfb;
    }
    bool op(int o)
    {
        const int t = w.tool;
        m.allow_prime_in_travel = false;
        moves++;
        const double dir = moves % 2 ? 1 : -0.5;
        switch (o)
        {
        case 0:
        case 1:
        case 2:
        case 19:
        {
            if (o == 19 && c.max_offset && w.unknown_z)
                return false;
            if (bfb && ! m.on[t] && ! stub[t]) // there's always a travel first
                return false;
            const double flow = o == 0 ? 0.1 : o == 1 ? 0.0437 : o == 2 ? 41.3 : 0.1, speed = o == 0 ? 50 : o == 1 ? 23.456 : 17;
            const bool still = o == 19 && ! w.hop && ! w.unknown_z && std::abs(w.z - w.layer) < 1e-9;
            const double fx = w.x, fy = w.y, fz = w.hop ? w.layer : w.z;
            if (o != 19)
                go(o == 2 ? 400 * dir : 10 * dir, o == 1 ? 5.678 * dir : 0);
            g.writeExtrusion(pos(), speed, flow, PrintFeatureType::Skin, c.max_offset > 0);
            const double len = std::sqrt((w.x - fx) * (w.x - fx) + (w.y - fy) * (w.y - fy) + (w.layer - fz) * (w.layer - fz));
            read();
            if (! still)
            {
                unretract();
                if (! bfb && o != 19 && (m.steps.empty() || ! (m.steps.back().xy || m.steps.back().z)))
                    BAD("no extrusion was written");
                else if (! bfb && ! m.steps.empty())
                {
                    const Step& s = m.steps.back();
                    double ahead = 0;
                    if (c.max_offset && len > 0)
                        ahead = std::min(c.max_offset, speed * flow * 0.2);
                    const double change = c.max_offset ? ahead - w.ahead[t] : 0;
                    if (std::abs(mm(s.before, t) - w.dep[t] - w.ahead[t]) > 4e-4 / (vol ? area(t) : 1))
                        BAD("an extrusion begins with the filament at %.5f, not at %.5f mm", mm(s.before, t), w.dep[t] + w.ahead[t]);
                    if (s.fw)
                        BAD("an extrusion begins while the firmware retracts");
                    if (std::abs(mm(s.fil, t) - len * flow / area(t) - change) > (3e-5 + len * 1e-9 + 2e-6 * flow) / (vol ? area(t) : 1) + (w.unknown_z || fz != w.layer ? 0.002 * flow : 0))
                        BAD("an extrusion pushed %.6f, not %.6f mm", mm(s.fil, t), len * flow / area(t) + change);
                    if (std::abs(s.f - speed * 60) > 0.06)
                        BAD("an extrusion at feed rate %g, not %g", s.f, speed * 60);
                    w.dep[t] += len * flow / area(t);
                    w.ahead[t] += change;
                }
                if (w.hop)
                    w.left = false;
                w.hop = 0;
                w.z = w.layer;
                if (bfb)
                {
                    if (! m.on[t])
                        BAD("an extrusion with the extruder stopped");
                    stub[t] = false;
                }
                w.unknown_z = bfb ? false : false;
            }
            break;
        }
        case 3:
        case 4:
        case 5:
        {
            if (o != 3 && ! retracts())
                return false;
            go(7.25 * dir, -3 * dir);
            const double target = o == 4 ? 1.5 : 0;
            m.allow_prime_in_travel = o != 3;
            g.writeTravel(pos(), 120.5, o == 3 ? std::nullopt : std::optional<double>(target));
            read();
            if (o != 3)
                w.r[t] = target;
            if (m.steps.size() != 1 || ! m.steps[0].xy || std::abs(m.steps[0].f - 120.5 * 60) > 0.06)
                BAD("%zu moves for one travel", m.steps.size());
            if (bfb && m.on[t])
                BAD("a travel with the extruder running");
            stub[t] = true;
            w.z = w.layer + w.hop;
            w.unknown_z = false;
            break;
        }
        case 6:
        case 7:
        case 18:
        {
            const RetractionConfig& k = o == 6 ? A() : B();
            if (c.firmware && w.r[t]) // firmware knows one amount
                return false;
            m.allow_prime_in_travel = true;
            const bool got = g.writeRetraction(k, o == 18);
            read();
            if (! bfb && got != retract(k, o == 18, false, 0))
                BAD("a retraction was %s", got ? "made in spite of the limit" : "left out");
            break;
        }
        case 8:
            g.writeUnretractionAndPrime();
            read();
            unretract();
            if (bfb && ! m.steps.empty())
                BAD("a move for what the machine does by itself");
            break;
        case 9:
        case 10:
        {
            if (w.hop || bfb || (o == 10 && ! retracts()) || w.unknown_z)
                return false;
            m.allow_prime_in_travel = true;
            if (o == 9)
                g.writeZhopStart(1500);
            else
                g.writeZhopStart(2000, 9.0, 3.0, Ratio(0.4));
            const double from = w.z, fil = mm(m.fil[t], t);
            read();
            w.hop = o == 9 ? 1.5 : 2;
            w.z = w.layer + w.hop;
            if (m.steps.size() != (o == 9 ? 1 : 2) || std::abs(m.steps[0].f - (o == 9 ? 660 : 540)) > 0.06)
                BAD("%zu moves for one hop", m.steps.size());
            if (o == 10)
            {
                if (std::abs(mm(m.steps[0].fil, t) + (3 - w.r[t])) > 3e-5 / (vol ? area(t) : 1) && std::abs(3 - w.r[t]) > 1e-6)
                    BAD("the retraction isn't made in the first part of the hop");
                w.r[t] = 3;
            }
            (void)from;
            (void)fil;
            break;
        }
        case 11:
        case 12:
        {
            if (w.unknown_z || (o == 12 && (! retracts() || w.left)))
                return false;
            m.allow_prime_in_travel = true;
            const bool was = w.hop > 0, left = w.left;
            if (o == 11)
                g.writeZhopEnd();
            else
                g.writeZhopEnd(8.0, 0, 1.0, Ratio(0.5));
            read();
            if (was)
            {
                const bool split = left || o == 12;
                const double amount = left ? 0.7 : 1.0;
                if (m.steps.size() != (split ? 2 : 1))
                    BAD("%zu moves down for one hop", m.steps.size());
                else if (split && std::abs(m.steps[0].fil) > 2e-5)
                    BAD("material is moved in the first part of a hop's end");
                if (split)
                    w.r[t] = amount;
                w.z = w.layer;
            }
            else if (! m.steps.empty())
                BAD("moves without a hop");
            w.hop = 0;
            w.left = false;
            break;
        }
        case 13:
            if (! retracts())
                return false;
            g.setZHopPrimeLeftover(ZHopAntiOozing{ 0.7, Ratio(0.25) });
            read();
            w.left = true;
            break;
        case 14:
            if (bfb)
                return false;
            g.addExtraPrimeAmount(0.55);
            read();
            w.prime[t] += 0.55;
            break;
        case 21:
        {
            const bool primed = g.extruder_attr_[t].is_primed_;
            if (w.primed[t] && ! primed)
                BAD("a primed extruder isn't any more");
            if (primed)
            {
                g.writePrimeTrain(97.25);
                read();
                if (! g_text.empty())
                    BAD("a primed extruder is primed again");
                break;
            }
            w.primed[t] = true;
            w.x = (c.offsets ? w.x : 0) + 7.5;
            w.y = (c.offsets ? w.y : 0) + 6.25;
            w.z = (c.offsets ? w.layer : 0) + 1.5 + w.hop;
            g.writePrimeTrain(97.25);
            read();
            stub[t] = true;
            w.unknown_z = false;
            if (m.steps.size() > 1 || ! m.steps.empty() && std::abs(m.steps[0].f - 97.25 * 60) > 0.06)
                BAD("%zu moves to where priming happens", m.steps.size());
            if (bfb && m.on[t])
                BAD("a travel with the extruder running");
            break;
        }
        case 15:
            g.resetExtrusionValue();
            read();
            break;
        case 16:
        {
            const bool hop = moves % 2 && ! w.hop && ! w.unknown_z && ! bfb;
            m.allow_prime_in_travel = true;
            g.switchExtruder(1 - t, S(), hop ? 2500 : 0);
            const double mx = m.x, my = m.y;
            read();
            if (! bfb)
                retract(S(), true, true, 0, ! m.steps.empty());
            if (hop)
            {
                w.hop = 2.5;
                w.z = w.layer + w.hop;
                if (std::abs(m.z - w.z) > 6e-4)
                    BAD("the head isn't lifted for the switch");
            }
            w.tool = 1 - t;
            w.x = mx + off(w.tool, 0);
            w.y = my + off(w.tool, 1);
            w.unknown_z = true;
            if (bfb && m.on[t])
                BAD("the extruder that is left runs");
            break;
        }
        case 17:
        {
            if (w.hop || w.unknown_z || w.left)
                return false;
            WipeScriptConfig k{};
            k.retraction_enable = true;
            k.retraction_config = A();
            k.hop_enable = ! bfb;
            k.hop_amount = 900;
            k.hop_speed = 12.0;
            k.brush_pos_x = 60000;
            k.repeat_count = 3;
            k.move_distance = 5000;
            k.move_speed = 77.0;
            k.pause = 1.0;
            if (c.firmware && w.r[t])
                return false;
            m.allow_prime_in_travel = true;
            g.insertWipeScript(k);
            const double z0 = w.z;
            read();
            if (! bfb)
            {
                const bool was = w.r[t] != A().distance;
                retract(A(), false, false, 0, was && ! c.firmware);
                double top = -1e9;
                for (const Step& s : m.steps)
                    if (s.xy && std::abs(s.fil) > 1e-9)
                        BAD("material is moved while wiping");
                (void)top;
                unretract();
            }
            else
                stub[t] = true;
            w.z = bfb ? z0 : w.layer;
            break;
        }
        case 20:
            if (w.hop)
                return false;
            w.layer += 0.2;
            g.setZ(std::llround(w.layer * 1000));
            read();
            break;
        }
        check("afterwards");
        return true;
    }
    void read()
    {
        const std::string t = g.take();
        g_text = t;
        m.run(parse(t), c.flavor);
    }
};
static const std::vector<int>& all_ops()
{
    static std::vector<int> r;
    if (r.empty())
        for (int o = 0; o < NOPS; o++)
            r.push_back(o);
    return r;
}
// pre: indices in ops
static void sequences(const Conf& c, const int* pre, int n, int depth, int part = 1, int rest = 0, const std::vector<int>& ops = all_ops())
{
    std::vector<int> s(depth, 0);
    uint64_t count = 0;
    for (int i = 0; i < n; i++)
        s[i] = pre[i];
    while (true)
    {
        if (part == 1 || count++ % part == (uint64_t)rest)
        {
            g_bad = false;
            g_ops.clear();
            Sequence q(c);
            bool ok = ! g_bad;
            int at = 0;
            for (; at < depth && ok; at++)
            {
                g_ops += std::string(" ") + OPS[ops[s[at]]];
                ok = q.op(ops[s[at]]) && ! g_bad;
                vh::trans();
            }
            if (g_bad)
                return;
            const uint64_t h = vh::hash(q.m.fil, sizeof q.m.fil, vh::hash(&q.w.z, sizeof q.w.z));
            vh::state(vh::mix(h, vh::hash(s.data(), s.size() * sizeof(int))));
            vh::outcome(h);
            if (! ok) // the operation makes no sense here: skip all that begin like this
            {
                for (int i = at; i < depth; i++)
                    s[i] = (int)ops.size() - 1;
                if (at - 1 < n)
                    return;
            }
        }
        int i = depth - 1;
        while (i >= n && ++s[i] == (int)ops.size())
            s[i--] = 0;
        if (i < n)
            return;
    }
}
static void explore_moves()
{
    const bool th = vh::thorough();
    using F = EGCodeFlavor;
    int k = 0;
    for (F f : { F::MARLIN, F::GRIFFIN, F::ULTIGCODE, F::MARLIN_VOLUMATRIC, F::MAKERBOT, F::BFB, F::MACH3, F::REPRAP, F::REPETIER, F::CHEETAH })
        for (int rel = 0; rel < 2; rel++)
            for (int fw = 0; fw < 2; fw++)
                for (int v = 0; v < 5; v++)
                {
                    if (f == F::BFB && (fw || v >= 3 || rel))
                        continue;
                    Conf c{};
                    c.flavor = f;
                    c.relative = rel;
                    c.firmware = fw;
                    c.offsets = v == 1 || v == 2;
                    c.init = v >= 2;
                    c.code = v == 3 && f != F::MACH3 && f != F::ULTIGCODE;
                    c.start = v == 2 && f != F::BFB;
                    c.max_offset = v == 4 ? 0.9 : 0;
                    if (v == 4 && (fw || (f != F::MARLIN && f != F::REPRAP)))
                        continue;
                    k++;
                    bool made = false;
                    for (int a = 0; a < NOPS; a++)
                        for (int b = 0; b < NOPS; b++)
                        {
                            // quick: all sequences of three, a part of those of four
                            const int pre[2] = { a, b };
                            if (! vh::begin("%s: %s %s and up to %d more", name(c).c_str(), OPS[a], OPS[b], th ? 3 : 2))
                                continue;
                            if (! made)
                                setup(c);
                            made = true;
                            sequences(c, pre, 2, 3);
                            sequences(c, pre, 2, 4, th ? 1 : 4, (a + b + k) % 4);
                            if (th)
                                sequences(c, pre, 2, 5, 7, (a * 2 + b + k) % 7);
                        }
                }
}

// longer sequences of few operations: limits on the number of retractions, hops, switches
static void explore_long()
{
    const bool th = vh::thorough();
    using F = EGCodeFlavor;
    const auto op = [](const char* n)
    {
        return (int)(std::find_if(std::begin(OPS), std::end(OPS), [&](const char* o) { return std::string(o) == n; }) - std::begin(OPS));
    };
    struct Group
    {
        const char* what;
        std::vector<int> ops;
        int limits;
    };
    const Group groups[] = { { "limited retractions", { op("extrude"), op("extrude-much"), op("retract-limited"), op("unretract"), op("switch") }, 3 },
                             { "hops", { op("extrude"), op("travel-retract"), op("hop-retract"), op("unhop-prime"), op("leftover"), op("layer-up") }, 1 },
                             { "switches", { op("extrude"), op("retract"), op("reset"), op("switch"), op("hop"), op("prime") }, 1 } };
    for (const Group& gr : groups)
        for (F f : { F::MARLIN, F::ULTIGCODE, F::MARLIN_VOLUMATRIC, F::GRIFFIN })
            for (int rel = 0; rel < 2; rel++)
                for (int fw = 0; fw < 2; fw++)
                    for (int limit = 1; limit <= gr.limits; limit++)
                    {
                        Conf c{};
                        c.flavor = f;
                        c.relative = rel;
                        c.firmware = fw;
                        c.offsets = fw;
                        c.init = true;
                        c.limit = limit;
                        const int depth = th ? 8 : 6;
                        bool made = false;
                        for (int a = 0; a < (int)gr.ops.size(); a++)
                            for (int b = 0; b < (int)gr.ops.size(); b++)
                            {
                                const int pre[2] = { a, b };
                                if (! vh::begin("%s, %d %s: %s %s and up to %d more", name(c).c_str(), limit, gr.what, OPS[gr.ops[a]], OPS[gr.ops[b]], depth - 2))
                                    continue;
                                if (! made)
                                    setup(c);
                                made = true;
                                for (int d = 4; d <= depth; d++)
                                    sequences(c, pre, 2, d, d == 8 ? 7 : 1, d == 8 ? (a * 2 + b + limit) % 7 : 0, gr.ops);
                            }
                    }
}

// --- C08 -----------------------------------------------------------------------------------------------------------------
#include "exporter_commands.inc"

static void explore()
{
    if (MOVES)
    {
        explore_moves();
        explore_long();
    }
    else
        explore_commands();
}
int main(int argc, char** argv)
{
    return vh::main_(argc, argv, explore, 8);
}
