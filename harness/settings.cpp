// C10: all assignments and operation sequences over a tree of settings containers against the documented lookup, and the
// conversion of every spelling of a value to every type.
#include "Application.h"
#include "ExtruderTrain.h"
#include "Slice.h"
#include "geometry/Shape.h"
#include "settings/EnumSettings.h"
#include "settings/FlowTempGraph.h"
#include "settings/Settings.h"
#include "settings/types/Angle.h"
#include "settings/types/Duration.h"
#include "settings/types/LayerIndex.h"
#include "settings/types/Ratio.h"
#include "settings/types/Temperature.h"
#include "settings/types/Velocity.h"
#include "utils/Matrix4x3D.h"
#include "vh.h"
#include <cmath>
#include <optional>
#include <sys/wait.h>
using namespace cura;
namespace
{
// ---- containers: 0 scene, 1 mesh group, 2 and 3 extruders (within the mesh group), 4 mesh (within an extruder)
enum
{
    SCENE,
    GROUP,
    E0,
    E1,
    MESH,
    NC
};
struct Tree
{
    std::shared_ptr<Slice> slice;
    Settings* c[NC];
    Settings group, mesh;
    // reference
    std::map<std::string, std::string> own[NC];
    int parent[NC] = { -1, SCENE, GROUP, GROUP, E0 };
    std::map<std::string, int> limit; // key -> extruder container
    Tree()
    {
        slice = std::make_shared<Slice>(0);
        Application::getInstance().current_slice_ = slice;
        slice->scene.extruders.reserve(2);
        slice->scene.extruders.emplace_back(0, &group);
        slice->scene.extruders.emplace_back(1, &group);
        c[SCENE] = &slice->scene.settings;
        c[GROUP] = &group;
        c[E0] = &slice->scene.extruders[0].settings_;
        c[E1] = &slice->scene.extruders[1].settings_;
        c[MESH] = &mesh;
        group.setParent(c[SCENE]);
        mesh.setParent(c[E0]);
    }
    Tree(const Tree&) = delete;
    ~Tree()
    {
        Application::getInstance().current_slice_.reset();
    }
    std::optional<std::string> chain(int from, const std::string& key) const
    {
        for (int i = from; i >= 0; i = parent[i])
            if (own[i].count(key))
                return own[i].at(key);
        return {};
    }
    std::optional<std::string> want(int from, const std::string& key) const
    {
        if (own[from].count(key))
            return own[from].at(key);
        if (limit.count(key))
            return chain(limit.at(key), key);
        return chain(from, key);
    }
    void add(int i, const std::string& k, const std::string& v)
    {
        c[i]->add(k, v);
        own[i][k] = v;
    }
    void remove(int i, const std::string& k)
    {
        c[i]->remove(k);
        own[i].erase(k);
    }
    void setLimit(const std::string& k, int e) // e: container or -1
    {
        slice->scene.limit_to_extruder.erase(k);
        limit.erase(k);
        if (e >= 0)
        {
            slice->scene.limit_to_extruder.emplace(k, &slice->scene.extruders[e - E0]);
            limit[k] = e;
        }
    }
    void setParent(int i, int p)
    {
        c[i]->setParent(c[p]);
        parent[i] = p;
    }
};
const char* NAME[] = { "scene", "group", "extruder 0", "extruder 1", "mesh" };
bool verify(const Tree& t, const std::string& trace)
{
    vh::trans();
    uint64_t h = 7;
    for (const std::string key : { "k", "other" })
        for (int i = 0; i < NC; i++)
        {
            const std::optional<std::string> want = t.want(i, key);
            const bool has = t.c[i]->has(key), deep = t.c[i]->has(key, true);
            if (has != (t.own[i].count(key) > 0))
            {
                vh::fail("%s: %s has '%s' itself: %d", trace.c_str(), NAME[i], key.c_str(), has);
                return false;
            }
            if (deep != want.has_value())
            {
                vh::fail("%s: %s has '%s': %d", trace.c_str(), NAME[i], key.c_str(), deep);
                return false;
            }
            if (want)
            {
                const std::string got = t.c[i]->get<std::string>(key);
                if (got != *want)
                {
                    vh::fail("%s: %s gives '%s' for '%s' instead of '%s'", trace.c_str(), NAME[i], got.c_str(), key.c_str(), want->c_str());
                    return false;
                }
            }
            h = vh::mix(h, vh::hash(want.value_or("-")));
        }
    for (int i = 0; i < NC; i++)
    {
        // keys of a container are those of the outermost one
        std::set<std::string> keys, want_keys;
        for (const std::string& k : t.c[i]->getKeys())
            keys.insert(k);
        for (const auto& [k, v] : t.own[SCENE])
            want_keys.insert(k);
        if (keys != want_keys)
        {
            vh::fail("%s: %s lists %zu keys of %zu", trace.c_str(), NAME[i], keys.size(), want_keys.size());
            return false;
        }
        bool all = true;
        for (const std::string& k : want_keys)
            all = all && t.want(i, k).has_value();
        if (! all)
            continue; // a key limited to an extruder, out of reach of the scene's value
        const auto flat = t.c[i]->getFlattendSettings();
        for (const std::string& k : want_keys)
            if (! flat.count(k) || flat.at(k) != *t.want(i, k) || flat.size() != want_keys.size())
            {
                vh::fail("%s: flattened settings of %s are wrong for '%s'", trace.c_str(), NAME[i], k.c_str());
                return false;
            }
    }
    vh::state(h);
    return true;
}
void assignments()
{
    for (int limit = -1; limit <= E1; limit += limit < 0 ? 3 : 1)
        for (int mp = E0; mp <= E1; mp++)
        {
            if (! vh::begin("assignments limit %d mesh in %d", limit, mp))
                continue;
            for (int bits = 0; bits < 1 << (2 * NC); bits++)
            {
                Tree t;
                t.setParent(MESH, mp);
                t.setLimit("k", limit);
                for (int i = 0; i < NC; i++)
                {
                    if (bits >> i & 1)
                        t.add(i, "k", "v" + std::to_string(i));
                    if (bits >> (NC + i) & 1)
                        t.add(i, "other", "w" + std::to_string(i));
                }
                if (! verify(t, "assignment " + std::to_string(bits)))
                    break;
            }
        }
}
void missing() // a setting nobody has a value for ends the program with status 2
{
    for (int limit = -1; limit <= E1; limit += limit < 0 ? 3 : 1)
        for (int i = 0; i < NC; i++)
        {
            if (! vh::begin("missing limit %d query %s", limit, NAME[i]))
                continue;
            vh::trans();
            fflush(nullptr);
            const pid_t pid = fork();
            if (pid == 0)
            {
                Tree t;
                t.setLimit("k", limit);
                t.add(SCENE, "other", "1");
                alarm(20);
                const std::string v = t.c[i]->get<std::string>("k");
                _exit(9);
            }
            int st = 0;
            waitpid(pid, &st, 0);
            if (! WIFEXITED(st) || WEXITSTATUS(st) != 2)
                vh::fail("a missing setting ends with status %x instead of exit code 2", st);
            vh::state(limit * 8 + i);
        }
}
void histories()
{
    const bool T = vh::thorough();
    struct Op
    {
        int kind, a;
        const char* v;
    };
    std::vector<Op> ops;
    for (int i = 0; i < NC; i++)
    {
        ops.push_back({ 0, i, "1" });
        ops.push_back({ 0, i, "two" });
        ops.push_back({ 1, i, "" });
    }
    ops.push_back({ 2, -1, "" });
    ops.push_back({ 2, E0, "" });
    ops.push_back({ 2, E1, "" });
    ops.push_back({ 3, E0, "" });
    ops.push_back({ 3, E1, "" });
    const size_t n = ops.size();
    const int depth = T ? 5 : 4;
    for (size_t a = 0; a < n; a++)
        for (size_t b = 0; b < n; b++)
        {
            if (! vh::begin("history %zu %zu + %d", a, b, depth - 2))
                continue;
            size_t rest = 1;
            for (int d = 2; d < depth; d++)
                rest *= n;
            for (size_t code = 0; code < rest && ! vh::g.case_failed; code++)
            {
                Tree t;
                t.add(SCENE, "other", "x");
                t.add(E0, "other", "y");
                std::string trace;
                size_t c = code;
                for (int d = 0; d < depth; d++)
                {
                    size_t o = d == 0 ? a : d == 1 ? b : c % n;
                    if (d >= 2)
                        c /= n;
                    const Op& op = ops[o];
                    trace += " " + std::to_string(o);
                    if (op.kind == 0)
                        t.add(op.a, "k", op.v);
                    else if (op.kind == 1)
                        t.remove(op.a, "k");
                    else if (op.kind == 2)
                        t.setLimit("k", op.a);
                    else
                        t.setParent(MESH, op.a);
                }
                if (! verify(t, "history" + trace))
                    break;
            }
        }
}
// ---- conversions
struct Conv
{
    Settings s;
    template<class T>
    T get(const std::string& v)
    {
        s.add("key", v);
        return s.get<T>("key");
    }
};
std::string dec(int64_t num, int digits) // num / 10^digits
{
    std::string s = std::to_string(std::abs(num));
    while ((int)s.size() <= digits)
        s = "0" + s;
    if (digits)
        s.insert(s.size() - digits, ".");
    return (num < 0 ? "-" : "") + s;
}
int64_t roundDiv(int64_t a, int64_t b) // half away from zero
{
    const int64_t s = a < 0 ? -1 : 1;
    a *= s;
    return s * ((2 * a + b) / (2 * b));
}
void numbers()
{
    const bool T = vh::thorough();
    const int64_t step = 4000, top = T ? 2000000 : 400000;
    for (int64_t from = -step; from <= top; from += step)
    {
        if (! vh::begin("millimetres from %lld", (long long)from))
            continue;
        Conv c;
        for (int64_t v = from; v < from + step; v++)
        {
            vh::trans();
            const coord_t a = c.get<coord_t>(dec(v, 3));
            if (a != v)
            {
                vh::fail("'%s' mm reads as %lld microns", dec(v, 3).c_str(), (long long)a);
                break;
            }
            // a digit beyond microns rounds to the nearest (halves aside, whose decimal value isn't representable)
            const int64_t w = v * 10 + (v % 2 ? 3 : -4);
            const coord_t b = c.get<coord_t>(dec(w, 4));
            if (b != roundDiv(w, 10))
            {
                vh::fail("'%s' mm reads as %lld microns", dec(w, 4).c_str(), (long long)b);
                break;
            }
            const double r = c.get<Ratio>(dec(v, 1)), want = v / 1000.0;
            const double d = c.get<double>(dec(v, 2)), vel = c.get<Velocity>(dec(v, 2)), acc = c.get<Acceleration>(dec(v, 2)), tmp = c.get<Temperature>(dec(v, 2)), dur = c.get<Duration>(dec(v, 2));
            const double deg = c.get<AngleDegrees>(dec(v, 1)), rad = c.get<AngleRadians>(dec(v, 1));
            const int64_t m = ((v % 3600) + 3600) % 3600;
            const double turn = std::abs(std::remainder(rad - m / 1800.0 * M_PI, 2 * M_PI));
            if (std::abs(r - want) > 1e-12 * (1 + std::abs(want)) || d != v / 100.0 || vel != d || acc != d || tmp != d || dur != std::max(0.0, d))
            {
                vh::fail("number %lld: ratio %.17g, plain %.17g, velocity %.17g, acceleration %.17g, temperature %.17g, duration %.17g", (long long)v, r, d, vel, acc, tmp, dur);
                break;
            }
            if (! (deg >= 0 && deg < 360 && std::abs(std::remainder(deg - m / 10.0, 360)) < 1e-9) || ! (rad >= 0 && rad < 2 * M_PI && turn < 1e-9))
            {
                vh::fail("angle '%s' reads as %.17g degrees and %.17g radians", dec(v, 1).c_str(), deg, rad);
                break;
            }
            const int64_t li = c.get<LayerIndex>(std::to_string(v));
            if (c.get<int>(std::to_string(v)) != v || li != v - 1 || (v >= 0 && c.get<size_t>(std::to_string(v)) != (size_t)v))
            {
                vh::fail("integer %lld misread", (long long)v);
                break;
            }
            vh::state(v + 1000000);
        }
    }
}
template<class E>
void enumeration(const char* name, std::initializer_list<std::pair<const char*, E>> table, E def, bool plugins)
{
    if (! vh::begin("enumeration %s", name))
        return;
    Conv c;
    std::set<std::string> valid;
    for (const auto& [s, e] : table)
        valid.insert(s);
    const auto test = [&](const std::string& v, E want)
    {
        vh::trans();
        const E got = c.get<E>(v);
        vh::state(vh::hash(v, vh::hash(std::string(name))));
        if (got != want)
            vh::fail("'%s' reads as value %d of %s instead of %d", v.c_str(), (int)got, name, (int)want);
        return got == want;
    };
    const std::string letters = "abcdefghijklmnopqrstuvwxyz_ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 ";
    for (const auto& [s, e] : table)
    {
        const std::string v = s;
        if (! test(v, e))
            return;
        for (size_t i = 0; i <= v.size(); i++) // every string one edit away isn't a valid value
            for (char l : letters)
            {
                for (int kind = 0; kind < 3; kind++)
                {
                    std::string w = v;
                    if (kind == 0)
                        w.insert(i, 1, l);
                    else if (i == v.size())
                        continue;
                    else if (kind == 1)
                        w[i] = l;
                    else
                        w.erase(i, 1);
                    if (valid.count(w) || (plugins && w == "plugin"))
                        continue;
                    if (! test(w, def))
                        return;
                }
            }
    }
    if (! test("", def) || ! test("none of these", valid.count("none of these") ? def : def))
        return;
    if constexpr (requires { E::PLUGIN; })
        for (const char* v : { "PLUGIN::a::b", "PLUGIN::plugin_1::MOZAIC" })
            if (! test(v, E::PLUGIN))
                return;
}
void spellings()
{
    if (vh::begin("booleans"))
    {
        Conv c;
        for (const char* s : { "on", "yes", "true", "True", "1", "2", "-1", " 1" })
            if (vh::trans(), ! c.get<bool>(s))
                vh::fail("'%s' isn't true", s);
        for (const char* s : { "off", "no", "false", "False", "0", "", "o", "tru", "On?" })
            if (vh::trans(), c.get<bool>(s))
                vh::fail("'%s' is true", s);
        vh::state(1);
    }
    enumeration<EGCodeFlavor>("flavour", { { "Marlin", EGCodeFlavor::MARLIN }, { "Griffin", EGCodeFlavor::GRIFFIN }, { "Cheetah", EGCodeFlavor::CHEETAH }, { "UltiGCode", EGCodeFlavor::ULTIGCODE }, { "Makerbot", EGCodeFlavor::MAKERBOT }, { "BFB", EGCodeFlavor::BFB }, { "MACH3", EGCodeFlavor::MACH3 }, { "RepRap (Volumetric)", EGCodeFlavor::MARLIN_VOLUMATRIC }, { "Repetier", EGCodeFlavor::REPETIER }, { "RepRap (RepRap)", EGCodeFlavor::REPRAP } }, EGCodeFlavor::MARLIN, true);
    enumeration<EFillMethod>("fill method", { { "none", EFillMethod::NONE }, { "lines", EFillMethod::LINES }, { "grid", EFillMethod::GRID }, { "cubic", EFillMethod::CUBIC }, { "cubicsubdiv", EFillMethod::CUBICSUBDIV }, { "tetrahedral", EFillMethod::TETRAHEDRAL }, { "quarter_cubic", EFillMethod::QUARTER_CUBIC }, { "triangles", EFillMethod::TRIANGLES }, { "trihexagon", EFillMethod::TRIHEXAGON }, { "concentric", EFillMethod::CONCENTRIC }, { "zigzag", EFillMethod::ZIG_ZAG }, { "cross", EFillMethod::CROSS }, { "cross_3d", EFillMethod::CROSS_3D }, { "gyroid", EFillMethod::GYROID }, { "lightning", EFillMethod::LIGHTNING }, { "honeycomb", EFillMethod::HONEYCOMB }, { "octagon", EFillMethod::OCTAGON } }, EFillMethod::NONE, true);
    enumeration<EPlatformAdhesion>("adhesion", { { "skirt", EPlatformAdhesion::SKIRT }, { "brim", EPlatformAdhesion::BRIM }, { "raft", EPlatformAdhesion::RAFT }, { "none", EPlatformAdhesion::NONE } }, EPlatformAdhesion::SKIRT, true);
    enumeration<ESupportType>("support placement", { { "none", ESupportType::NONE }, { "everywhere", ESupportType::EVERYWHERE }, { "buildplate", ESupportType::PLATFORM_ONLY } }, ESupportType::NONE, true);
    enumeration<ESupportStructure>("support structure", { { "normal", ESupportStructure::NORMAL }, { "tree", ESupportStructure::TREE } }, ESupportStructure::NORMAL, true);
    enumeration<EZSeamType>("seam", { { "shortest", EZSeamType::SHORTEST }, { "random", EZSeamType::RANDOM }, { "back", EZSeamType::USER_SPECIFIED }, { "sharpest_corner", EZSeamType::SHARPEST_CORNER } }, EZSeamType::SHORTEST, true);
    enumeration<EZSeamCornerPrefType>("seam corner", { { "z_seam_corner_inner", EZSeamCornerPrefType::Z_SEAM_CORNER_PREF_INNER }, { "z_seam_corner_outer", EZSeamCornerPrefType::Z_SEAM_CORNER_PREF_OUTER }, { "z_seam_corner_any", EZSeamCornerPrefType::Z_SEAM_CORNER_PREF_ANY }, { "z_seam_corner_weighted", EZSeamCornerPrefType::Z_SEAM_CORNER_PREF_WEIGHTED } }, EZSeamCornerPrefType::Z_SEAM_CORNER_PREF_INNER, true);
    enumeration<ESurfaceMode>("surface mode", { { "normal", ESurfaceMode::NORMAL }, { "surface", ESurfaceMode::SURFACE }, { "both", ESurfaceMode::BOTH } }, ESurfaceMode::NORMAL, true);
    enumeration<FillPerimeterGapMode>("gaps", { { "nowhere", FillPerimeterGapMode::NOWHERE }, { "everywhere", FillPerimeterGapMode::EVERYWHERE } }, FillPerimeterGapMode::NOWHERE, true);
    enumeration<BuildPlateShape>("build plate", { { "rectangular", BuildPlateShape::RECTANGULAR }, { "elliptic", BuildPlateShape::ELLIPTIC } }, BuildPlateShape::RECTANGULAR, true);
    enumeration<CombingMode>("combing", { { "all", CombingMode::ALL }, { "off", CombingMode::OFF }, { "noskin", CombingMode::NO_SKIN }, { "no_outer_surfaces", CombingMode::NO_OUTER_SURFACES }, { "infill", CombingMode::INFILL } }, CombingMode::ALL, true);
    enumeration<SupportDistPriority>("support distance priority", { { "xy_overrides_z", SupportDistPriority::XY_OVERRIDES_Z }, { "z_overrides_xy", SupportDistPriority::Z_OVERRIDES_XY } }, SupportDistPriority::XY_OVERRIDES_Z, true);
    enumeration<SlicingTolerance>("tolerance", { { "middle", SlicingTolerance::MIDDLE }, { "inclusive", SlicingTolerance::INCLUSIVE }, { "exclusive", SlicingTolerance::EXCLUSIVE } }, SlicingTolerance::MIDDLE, true);
    enumeration<InsetDirection>("inset direction", { { "inside_out", InsetDirection::INSIDE_OUT }, { "outside_in", InsetDirection::OUTSIDE_IN } }, InsetDirection::INSIDE_OUT, true);
    enumeration<PrimeTowerMode>("prime tower", { { "interleaved", PrimeTowerMode::INTERLEAVED }, { "normal", PrimeTowerMode::NORMAL } }, PrimeTowerMode::NORMAL, false);
    enumeration<BrimLocation>("brim location", { { "everywhere", BrimLocation::EVERYWHERE }, { "inside", BrimLocation::INSIDE }, { "outside", BrimLocation::OUTSIDE } }, BrimLocation::OUTSIDE, false);
    enumeration<CoolDuringExtruderSwitch>("cooling at switches", { { "all_fans", CoolDuringExtruderSwitch::ALL_FANS }, { "only_last_extruder", CoolDuringExtruderSwitch::ONLY_LAST_EXTRUDER }, { "unchanged", CoolDuringExtruderSwitch::UNCHANGED } }, CoolDuringExtruderSwitch::UNCHANGED, false);
    enumeration<InfillStartEndPreference>("infill start", { { "end_close_to_seam", InfillStartEndPreference::END_CLOSE_TO_SEAM }, { "start_random", InfillStartEndPreference::START_RANDOM }, { "start_closest", InfillStartEndPreference::START_CLOSEST } }, InfillStartEndPreference::START_CLOSEST, false);
    enumeration<RetractBeforeOuterWall>("retraction before outer walls", { { "force_retracted", RetractBeforeOuterWall::RETRACTED }, { "force_not_retracted", RetractBeforeOuterWall::NOT_RETRACTED }, { "force_not_retracted_from_infill", RetractBeforeOuterWall::NOT_RETRACTED_FROM_INFILL }, { "automatic", RetractBeforeOuterWall::AUTOMATIC } }, RetractBeforeOuterWall::AUTOMATIC, false);
}
const char* NUM[] = { "0", "1", "-2.5", "+3", ".5", "45", "1e1", "5e-03", "-.25", "120.0", "7." };
const double VAL[] = { 0, 1, -2.5, 3, 0.5, 45, 10, 0.005, -0.25, 120, 7 };
constexpr int NN = 11;
void lists()
{
    const char* SEP[] = { ",", ", ", " ,", " , " };
    const char* BR[][2] = { { "[", "]" }, { "[ ", " ]" }, { " [", "] " }, { "[", "" } };
    for (int n = 0; n <= 3; n++)
        for (int a = 0; a < NN; a++)
        {
            if (n == 0 && a)
                continue;
            if (! vh::begin("lists of %d from %s", n, NUM[a]))
                continue;
            Conv c;
            for (int b = 0; b < (n > 1 ? NN : 1); b++)
                for (int d = 0; d < (n > 2 ? NN : 1); d++)
                    for (const char* sep : SEP)
                        for (const auto& br : BR)
                        {
                            if (vh::g.case_failed)
                                continue;
                            const int idx[] = { a, b, d };
                            std::string v = br[0];
                            for (int i = 0; i < n; i++)
                                v += std::string(i ? sep : "") + NUM[idx[i]];
                            v += br[1];
                            vh::trans();
                            const auto x = c.get<std::vector<double>>(v);
                            const auto r = c.get<std::vector<Ratio>>(v);
                            const auto k = c.get<std::vector<int>>(v);
                            const auto g = c.get<std::vector<AngleDegrees>>(v);
                            bool ok = (int)x.size() == n && (int)r.size() == n && (int)k.size() == n && (int)g.size() == n;
                            for (int i = 0; ok && i < n; i++)
                            {
                                const double w = VAL[idx[i]];
                                ok = x[i] == w && std::abs((double)r[i] - w / 100) < 1e-12 && k[i] == (int)std::round(w) && std::abs((double)g[i] - (w < 0 ? w + 360 : w)) < 1e-9;
                            }
                            if (! ok)
                            {
                                std::string got;
                                for (double q : x)
                                    got += " " + std::to_string(q);
                                vh::fail("list '%s' reads as%s", v.c_str(), got.c_str());
                                continue;
                            }
                            vh::state(vh::hash(v));
                        }
        }
}
void structures()
{
    // flow-temperature graphs and shapes: lists of pairs
    for (int n = 0; n <= 2; n++)
        for (int a = 0; a < (n ? NN : 1); a++)
        {
            if (! vh::begin("pairs %d from %s", n, NUM[a]))
                continue;
            Conv c;
            for (int b = 0; b < (n ? NN : 1); b++)
                for (int d = 0; d < (n > 1 ? NN : 1); d++)
                    for (int e = 0; e < (n > 1 ? NN : 1); e++)
                        for (const char* sep : { ",", ", ", " , " })
                        {
                            const int idx[] = { a, b, d, e };
                            std::string v = "[";
                            for (int i = 0; i < n; i++)
                                v += std::string(i ? sep : "") + "[" + NUM[idx[2 * i]] + sep + NUM[idx[2 * i + 1]] + "]";
                            v += "]";
                            vh::trans();
                            const FlowTempGraph g = c.get<FlowTempGraph>(v);
                            bool ok = (int)g.data_.size() == n;
                            for (int i = 0; ok && i < n; i++)
                                ok = g.data_[i].flow_ == VAL[idx[2 * i]] && g.data_[i].temp_ == VAL[idx[2 * i + 1]];
                            if (! ok)
                            {
                                vh::fail("graph '%s' reads as %zu points", v.c_str(), g.data_.size());
                                return;
                            }
                            const std::string w = "[" + v + sep + v + "]";
                            const Shape s = c.get<Shape>(w);
                            ok = n == 0 || s.size() == 2;
                            for (size_t p = 0; ok && n && p < 2; p++)
                            {
                                ok = (int)s[p].size() == n;
                                for (int i = 0; ok && i < n; i++)
                                    ok = s[p][i] == Point2LL(std::llround(VAL[idx[2 * i]] * 1000), std::llround(VAL[idx[2 * i + 1]] * 1000));
                            }
                            if (! ok)
                            {
                                vh::fail("outlines '%s' read as %zu", w.c_str(), s.size());
                                return;
                            }
                            vh::state(vh::hash(v));
                        }
        }
    for (int a = 0; a < NN; a++)
    {
        if (! vh::begin("matrices from %s", NUM[a]))
            continue;
        Conv c;
        for (int pos = 0; pos < 9; pos++)
            for (int b = 0; b < NN; b++)
                for (int pos2 = 0; pos2 < 9; pos2++)
                    for (const char* sp : { "", " " })
                    {
                        if (pos == pos2)
                            continue;
                        int idx[9] = { 1, 0, 0, 0, 1, 0, 0, 0, 1 };
                        idx[pos] = a;
                        idx[pos2] = b;
                        std::string v = std::string(sp) + "[";
                        for (int i = 0; i < 3; i++)
                            v += std::string(i ? "," : "") + sp + "[" + sp + NUM[idx[3 * i]] + "," + sp + NUM[idx[3 * i + 1]] + sp + "," + NUM[idx[3 * i + 2]] + sp + "]" + sp;
                        v += std::string("]") + sp;
                        vh::trans();
                        const Matrix4x3D m = c.get<Matrix4x3D>(v);
                        for (int i = 0; i < 9; i++)
                            if (m.m[i % 3][i / 3] != VAL[idx[i]])
                            {
                                vh::fail("matrix '%s' reads %f in row %d column %d", v.c_str(), m.m[i % 3][i / 3], i / 3, i % 3);
                                return;
                            }
                        vh::state(vh::hash(v));
                    }
    }
    // interpolation
    for (int n = 0; n <= 3; n++)
    {
        if (! vh::begin("flow graph of %d points", n))
            continue;
        const double T[] = { 180, 200, 195, 240 };
        for (int x0 = 0; x0 < 4; x0++)
            for (int x1 = x0 + 1; x1 < 6; x1++)
                for (int x2 = x1 + 1; x2 < 8; x2++)
                    for (int t = 0; t < 64; t++)
                    {
                        FlowTempGraph g;
                        const double fx[] = { (double)x0, (double)x1, (double)x2 }, fy[] = { T[t % 4], T[t / 4 % 4], T[t / 16] };
                        for (int i = 0; i < n; i++)
                            g.data_.emplace_back(fx[i], fy[i]);
                        for (int q = -2; q <= 36; q++)
                        {
                            vh::trans();
                            const double f = q / 4.0;
                            double want = 210;
                            if (n)
                            {
                                want = f < fx[0] ? fy[0] : fy[n - 1];
                                for (int i = 1; i < n; i++)
                                    if (f >= fx[i - 1] && f <= fx[i])
                                        want = fy[i - 1] + (fy[i] - fy[i - 1]) * (f - fx[i - 1]) / (fx[i] - fx[i - 1]);
                            }
                            if (std::abs(g.getTemp(f, 210, true) - want) > 1e-9 || g.getTemp(f, 210, false) != 210)
                            {
                                vh::fail("flow %.2f gives %f instead of %f", f, g.getTemp(f, 210, true), want);
                                return;
                            }
                            vh::state(vh::mix(x0 + 10 * x1 + 100 * x2, t * 64 + q));
                        }
                    }
    }
}
void listing() // the settings as command line arguments
{
    std::vector<std::string> vals = { "", "1", "a b", "say \"hi\"", "back\\slash", "two\nlines", "tab\there", "it's", "what?", "%s%d", std::string(4200, 'x'), std::string(5000, '"') };
    for (size_t a = 0; a < vals.size(); a++)
    {
        if (! vh::begin("listing %zu", a))
            continue;
        for (size_t b = 0; b < vals.size(); b++)
        {
            vh::trans();
            Settings s;
            s.add("first_key", vals[a]);
            s.add("second", vals[b]);
            const std::string text = s.getAllSettingsString();
            std::map<std::string, std::string> got;
            size_t i = 0;
            bool ok = true;
            while (ok && i < text.size())
            {
                ok = text.compare(i, 4, " -s ") == 0;
                const size_t eq = text.find("=\"", i);
                ok = ok && eq != std::string::npos;
                if (! ok)
                    break;
                const std::string key = text.substr(i + 4, eq - i - 4);
                std::string v;
                for (i = eq + 2; i < text.size() && text[i] != '"'; i++)
                    if (text[i] == '\\' && i + 1 < text.size())
                    {
                        i++;
                        const char* from = "abfnrtv";
                        const char* to = "\a\b\f\n\r\t\v";
                        const char* p = strchr(from, text[i]);
                        v += p ? to[p - from] : text[i];
                    }
                    else
                        v += text[i];
                ok = i < text.size();
                i++;
                got[key] = v;
            }
            if (! ok || got.size() != 2 || got["first_key"] != vals[a] || got["second"] != vals[b])
            {
                vh::fail("settings '%.20s' and '%.20s' are listed as '%.80s'", vals[a].c_str(), vals[b].c_str(), text.c_str());
                break;
            }
            vh::state(a * 100 + b);
        }
    }
}
void explore()
{
    assignments();
    missing();
    histories();
    numbers();
    spellings();
    lists();
    structures();
    listing();
}
} // namespace
int main(int argc, char** argv)
{
    return vh::main_(argc, argv, explore, 1);
}
