// C42: limiting how fast the flow changes, on all short sequences of paths.
#include "Slice.h"
#include "gradual_flow/Processor.h"
#include "shapes.h"
#include "vh.h"
#include "world.h"

using namespace cura;
using namespace vs;

struct Move
{
    const char* name;
    bool travel;
    bool retract;
    int shape; // which points, relative to the end of the previous path
    double speed; // mm/s
    double flow, width, factor, pressure;
    i64 line; // width in the config
    int repeat = 1;
    double grow = 0; // wider each time
};
// flows in mm3/s with 0.4 x 0.2: speed * 0.08
static const Move MOVES[] = {
    { "t", true, false, 0, 150, 0, 1, 1, 1, 400 }, // short travel
    { "T", true, false, 3, 150, 0, 1, 1, 1, 400 }, // long travel
    { "R", true, true, 0, 150, 0, 1, 1, 1, 400 }, // retracted
    { "a", false, false, 1, 25, 1, 1, 1, 1, 400 }, // slow
    { "b", false, false, 2, 100, 1, 1, 1, 1, 400 }, // fast and long
    { "c", false, false, 4, 50, 1, 1, 1, 1, 400 }, // with corners
    { "d", false, false, 0, 100, 1, 1, 1, 1, 400 }, // fast and short
    { "e", false, false, 2, 40, 1, 1.5, 1, 1, 400 }, // wide
    { "f", false, false, 4, 80, 0.5, 1, 1.5, 1, 400 }, // little flow, sped up
    { "g", false, false, 3, 60, 1, 1, 1, 0.5, 600 }, // another width, compensated for back pressure
    { "h", false, false, 5, 75, 1, 1, 1, 1, 400 }, // zero length at first
    { "i", false, false, 6, 50, 1, 1, 1, 1, 400 }, // exactly some steps long
    { "j", false, false, 7, 90, 1, 1, 1, 1, 400, 15 }, // many tiny lines
    { "k", false, false, 7, 60, 1, 0.5, 1, 1, 400, 15, 0.07 }, // a line getting wider
};
constexpr int NM = sizeof(MOVES) / sizeof(*MOVES);
static const std::vector<std::vector<P>> SHAPES = {
    { { 700, 0 } }, { { 0, 3000 } }, { { 20000, 1000 } }, { { -9000, 12001 } }, { { 4000, 0 }, { 4000, 333 }, { 0, 333 }, { 0, 5000 } }, { { 0, 0 }, { 0, 0 }, { 5000, 5000 } }, { { 5000, 0 }, { 10000, 0 }, { 15000, 0 } }, { { 250, 0 } },
};
struct Cfg
{
    double acc, acc0, step, reset;
    int layer;
};
static const Cfg CFGS[] = {
    { 1, 2, 0.1, 2, 1 }, { 1, 2, 0.1, 2, 0 }, { 8, 8, 0.05, 0.01, 1 }, { 0.25, 1, 0.5, 0.05, 1 }, { 40, 40, 0.1, 0, 1 }, { 1e6, 1e6, 0.1, 2, 1 }, { 2, 2, 0.02, 2, 3 },
};

static double mm3(const GCodePath& p)
{
    return p.isTravelPath() ? 0 : p.getExtrusionMM3perMM();
}
static double speedOf(const GCodePath& p) // what is written
{
    return p.config.speed_derivatives.speed * p.speed_factor * p.speed_back_pressure_factor;
}
static double dist2(const Point3LL& a, const Point3LL& b)
{
    return std::hypot(double(a.x_ - b.x_), double(a.y_ - b.y_));
}

static void run(const std::vector<int>& moves, const Cfg& c)
{
    std::vector<int> seq;
    for (int m : moves)
        seq.insert(seq.end(), MOVES[m].repeat, m);
    Scene& scene = Application::getInstance().current_slice_->scene;
    Settings& s = scene.extruders[0].settings_;
    s.add("gradual_flow_enabled", "true");
    s.add("max_flow_acceleration", std::to_string(c.acc));
    s.add("layer_0_max_flow_acceleration", std::to_string(c.acc0));
    s.add("gradual_flow_discretisation_step_size", std::to_string(c.step));
    s.add("reset_flow_duration", std::to_string(c.reset));
    const double acc = c.layer == 0 ? c.acc0 : c.acc;

    std::vector<GCodePath> in;
    Point3LL at(1000, 1000, 0);
    for (size_t k = 0; k < seq.size(); k++)
    {
        const Move& m = MOVES[seq[k]];
        GCodePath p;
        p.config = GCodePathConfig{ .type = m.travel ? PrintFeatureType::MoveUnretracted : PrintFeatureType::OuterWall,
                                    .line_width = m.travel ? 0 : m.line,
                                    .layer_thickness = 200,
                                    .flow = Ratio(1.0),
                                    .speed_derivatives = SpeedDerivatives{ .speed = Velocity(m.speed), .acceleration = Acceleration(3000.0), .jerk = Velocity(10.0) } };
        p.flow = Ratio(m.flow);
        p.width_factor = Ratio(m.width + m.grow * (k % m.repeat));
        p.speed_factor = Ratio(m.factor);
        p.speed_back_pressure_factor = Ratio(m.pressure);
        p.retract = m.retract;
        p.fan_speed = 1 + k; // to recognise it
        for (const P& q : SHAPES[m.shape])
            p.points.push_back(at + Point3LL(q.x, q.y, 0));
        at = p.points.back();
        in.push_back(p);
    }
    std::vector<GCodePath> out = in;
    gradual_flow::Processor::process(out, 0, c.layer);
    vh::trans(out.size());

    // the same paths in the same order, each over its own points
    size_t o = 0;
    Point3LL from = in[0].points[0];
    std::vector<size_t> origin;
    uint64_t h = 0;
    for (size_t k = 0; k < in.size(); k++)
    {
        const GCodePath& p = in[k];
        std::vector<Point3LL> line{ from };
        if (k == 0)
            line.clear();
        line.insert(line.end(), p.points.begin(), p.points.end());
        std::vector<Point3LL> got;
        if (k > 0)
            got.push_back(from);
        double volume = 0;
        Point3LL last = from;
        size_t pieces = 0;
        while (o < out.size() && std::llround(out[o].fan_speed) == std::llround(p.fan_speed))
        {
            const GCodePath& q = out[o];
            VH_CHECK(q.config.type == p.config.type && q.config.line_width == p.config.line_width && q.config.layer_thickness == p.config.layer_thickness && q.flow == p.flow && q.width_factor == p.width_factor
                         && q.retract == p.retract && std::abs(mm3(q) - mm3(p)) < 1e-12 && q.isTravelPath() == p.isTravelPath(),
                     "path %zu (%s): a piece of it is made with other settings", k, MOVES[seq[k]].name);
            VH_CHECK(speedOf(q) > 0 && speedOf(q) <= speedOf(p) * (1 + 1e-9), "path %zu (%s): printed at %.3f mm/s instead of at most %.3f", k, MOVES[seq[k]].name, speedOf(q), speedOf(p));
            if (p.isTravelPath())
                VH_CHECK(std::abs(speedOf(q) - speedOf(p)) < 1e-9, "travel %zu is slowed down from %.3f to %.3f", k, speedOf(p), speedOf(q));
            for (const Point3LL& x : q.points)
            {
                got.push_back(x);
                volume += dist2(last, x) * 1e-3 * mm3(q);
                last = x;
                h = vh::mix(h, x.x_ * 7919 + x.y_);
            }
            h = vh::mix(h, (uint64_t)(speedOf(q) * 1000));
            origin.push_back(k);
            pieces++;
            o++;
        }
        VH_CHECK(pieces > 0, "path %zu (%s) is lost or out of order", k, MOVES[seq[k]].name);
        VH_CHECK(! p.isTravelPath() || pieces == 1, "travel %zu was cut up", k);
        // all corners in order, what is between them lies on the line
        size_t next = 0;
        double along = -1;
        for (size_t i = 0; i < got.size(); i++)
        {
            if (i > 0 && got[i] == got[i - 1] && (next >= line.size() || got[i] != line[next]))
                continue; // a piece of no length
            if (next < line.size() && got[i] == line[next])
            {
                next++;
                along = -1;
                continue;
            }
            if (next == 0 || next >= line.size())
                return vh::fail("path %zu (%s): point (%lld,%lld) is not part of it", k, MOVES[seq[k]].name, got[i].x_, got[i].y_);
            const Point3LL a = line[next - 1], b = line[next];
            const double len = dist2(a, b);
            const double t = ((got[i].x_ - a.x_) * double(b.x_ - a.x_) + (got[i].y_ - a.y_) * double(b.y_ - a.y_)) / std::max(1.0, len);
            const double off = std::abs((got[i].x_ - a.x_) * double(b.y_ - a.y_) - (got[i].y_ - a.y_) * double(b.x_ - a.x_)) / std::max(1.0, len);
            VH_CHECK(off <= std::min(12.0, 2 + 0.5 * pieces) && t >= -2 && t <= len + 2 && t >= along - 2, "path %zu (%s): cut at (%lld,%lld), %.1f beside its line, %.1f along after %.1f", k, MOVES[seq[k]].name, got[i].x_, got[i].y_, off, t, along);
            along = std::max(along, t);
        }
        VH_CHECK(next == line.size(), "path %zu (%s) ends after corner %zu of %zu", k, MOVES[seq[k]].name, next, line.size());
        double expect = 0;
        for (size_t i = 1; i < line.size(); i++)
            expect += dist2(line[i - 1], line[i]) * 1e-3 * mm3(p);
        VH_CHECK(std::abs(volume - expect) <= 0.003 * mm3(p) * (pieces + 1) + 1e-9, "path %zu (%s): %.6f mm3 instead of %.6f", k, MOVES[seq[k]].name, volume, expect);
        from = p.points.back();
    }
    VH_CHECK(o == out.size(), "%zu paths too many", out.size() - o);
    vh::outcome(h);

    // flow over time, while printing
    struct Piece
    {
        double t0, t1, flow, target;
        int run; // pieces between which the flow may not jump
        size_t of;
    };
    std::vector<Piece> ps;
    double t = 0;
    int nrun = 0;
    Point3LL last = in[0].points[0];
    for (size_t i = 0; i < out.size(); i++)
    {
        const GCodePath& q = out[i];
        double len = 0;
        for (const Point3LL& x : q.points)
        {
            len += dist2(last, x) * 1e-3;
            last = x;
        }
        const double dur = len / speedOf(q);
        if (mm3(q) == 0)
        {
            if (q.retract || dur > c.reset - 1e-9)
                nrun++;
            continue;
        }
        ps.push_back({ t, t + dur, speedOf(q) * mm3(q), speedOf(in[origin[i]]) * mm3(in[origin[i]]), nrun, origin[i] });
        t += dur;
    }
    if (getenv("VH_LOG"))
        for (const Piece& p : ps)
            fprintf(stderr, "%zu %.4f..%.4f flow %.4f of %.4f run %d\n", p.of, p.t0, p.t1, p.flow, p.target, p.run);
    const double delta = acc * c.step;
    for (size_t i = 0; i < ps.size(); i++)
        for (size_t j = i + 1; j < ps.size() && ps[j].run == ps[i].run; j++)
        {
            if (ps[i].t0 == ps[i].t1 || ps[j].t0 == ps[j].t1)
                continue;
            const double gap = ps[j].t0 - ps[i].t1; // between the end of one and the start of the other
            const double allowed = acc * gap + 2 * delta + 1e-3 * delta + 1e-6 + 0.01 * ps[j].flow; // rounding to microns
            VH_CHECK(ps[j].flow - ps[i].flow <= allowed, "flow rises from %.4f to %.4f mm3/s (paths %zu %s and %zu %s) within %.4f s, %.4f/s are allowed in steps of %.4f", ps[i].flow, ps[j].flow, ps[i].of,
                     MOVES[seq[ps[i].of]].name, ps[j].of, MOVES[seq[ps[j].of]].name, gap, acc, delta);
            VH_CHECK(ps[i].flow - ps[j].flow <= allowed + 0.01 * ps[i].flow, "flow falls from %.4f to %.4f mm3/s (paths %zu %s and %zu %s) within %.4f s, %.4f/s are allowed in steps of %.4f", ps[i].flow, ps[j].flow,
                     ps[i].of, MOVES[seq[ps[i].of]].name, ps[j].of, MOVES[seq[ps[j].of]].name, gap, acc, delta);
        }
    // no slower than needed: away from lower flows by more than the time it takes to get up, the full flow is reached
    double start = -1; // the flow to end with
    for (const GCodePath& p : in)
        if (mm3(p) > 0)
        {
            start = speedOf(p) * mm3(p);
            break;
        }
    for (size_t i = 0; i < ps.size(); i++)
    {
        const Piece& p = ps[i];
        VH_CHECK(p.t0 == p.t1 || p.flow - start <= acc * (t - p.t1) + 2 * delta + 0.01 * p.flow, "path %zu (%s): %.4f mm3/s %.4f s before the end, where %.4f should be reached", p.of, MOVES[seq[p.of]].name, p.flow, t - p.t1, start);
        if (p.flow >= p.target * (1 - 1e-3))
            continue;
        bool reason = p.target - start > acc * (t - p.t1 - 4 * c.step) - 1e-6; // close to the end
        for (size_t j = 0; j < ps.size(); j++)
            if (ps[j].of != p.of && ps[j].target < p.target && (j > i || ps[j].run == p.run))
            {
                const double gap = j < i ? p.t0 - ps[j].t1 : ps[j].t0 - p.t1;
                reason |= p.target - ps[j].target > acc * (gap - 4 * c.step) - 1e-6;
            }
        VH_CHECK(reason, "path %zu (%s) is held back to %.4f of %.4f mm3/s without reason", p.of, MOVES[seq[p.of]].name, p.flow, p.target);
    }
}
// cutting one path, at all times of interest and right next to them
static void cut(const std::vector<i64>& lens, double speed)
{
    GCodePath g;
    g.config = GCodePathConfig{ .type = PrintFeatureType::OuterWall, .line_width = 400, .layer_thickness = 200, .flow = Ratio(1.0), .speed_derivatives = SpeedDerivatives{ .speed = Velocity(50.0), .acceleration = Acceleration(3000.0), .jerk = Velocity(10.0) } };
    g.flow = Ratio(1.0);
    g.width_factor = Ratio(1.0);
    std::vector<Point3LL> pts{ Point3LL(0, 0, 0) };
    for (size_t i = 0; i < lens.size(); i++)
        pts.push_back(pts.back() + (i % 2 ? Point3LL(0, lens[i], 0) : Point3LL(lens[i], 0, 0)));
    const gradual_flow::FlowLimitedPath p{ .original_gcode_path_data = &g, .points = pts };
    std::vector<double> ts;
    double sum = 0;
    i64 len = 0;
    for (i64 l : lens)
    {
        sum += l / speed;
        len += l;
        for (double t : { sum, len / speed, (len - l / 2.0) / speed })
            for (double u : { t, std::nextafter(t, 0), std::nextafter(std::nextafter(t, 0), 0), std::nextafter(t, 1e9) })
                ts.push_back(u);
    }
    for (double t : ts)
        for (auto dir : { gradual_flow::utils::Direction::Forward, gradual_flow::utils::Direction::Backward })
        {
            if (t <= 0)
                continue;
            const auto [a, b, left] = p.partition(t, speed, dir);
            vh::trans();
            VH_CHECK(a.speed == speed && (! b || b->speed == p.speed), "speeds of the pieces");
            if (! b)
            {
                VH_CHECK(a.points == pts && left >= 0 && std::abs(left - (t - len / speed)) < 1e-9, "cut at or after the end, but %.9f remains of %.9f", left, t);
                VH_CHECK(t >= len / speed * (1 - 1e-12), "not cut at %.12f of %.12f", t, len / speed);
                continue;
            }
            const bool fwd = dir == gradual_flow::utils::Direction::Forward;
            const auto &first = fwd ? a.points : b->points, &second = fwd ? b->points : a.points;
            VH_CHECK(left == 0 && ! first.empty() && ! second.empty() && first.back() == second.front(), "the pieces don't meet");
            std::vector<Point3LL> all = first;
            all.insert(all.end(), second.begin() + 1, second.end());
            size_t next = 0;
            double length = 0;
            for (size_t i = 0; i < all.size(); i++)
            {
                next += next < pts.size() && all[i] == pts[next];
                length += i ? dist2(all[i - 1], all[i]) : 0;
            }
            VH_CHECK(next == pts.size() && std::abs(length - len) < 1e-6, "the pieces are %.3f long together instead of %lld, %zu of %zu corners are left", length, len, next, pts.size());
            VH_CHECK(std::abs(a.total_length - t * speed) <= 1.01, "cut after %.3f instead of %.3f", a.total_length, t * speed);
        }
}
static void explore()
{
    const bool T = vh::thorough();
    world::fresh(1, 1);
    const i64 NL = T ? 40 : 24;
    for (double speed : { 1.0, 3.0, 7.0, 10.0, 33333.3, 50000.0, 1e5 / 7 })
        for (i64 x = 0; x <= NL; x++)
            if (vh::begin("cut speed %.1f from %lld", speed, x))
                for (i64 y = 0; y <= NL; y++)
                    for (i64 z = 0; z <= NL; z++)
                    {
                        if (x + y + z == 0)
                            continue;
                        cut({ x * 7, y, z * 3 }, speed);
                        vh::state(vh::mix(x * 10000 + y * 100 + z, (uint64_t)(speed * 10)));
                    }
    for (int len = 1; len <= (T ? 5 : 4); len++)
    {
        int total = 1;
        for (int i = 0; i < len; i++)
            total *= NM;
        for (size_t c = 0; c < sizeof(CFGS) / sizeof(*CFGS); c++)
            for (int n = 0; n < total; n++)
            {
                if (! T && len == 4 && (n + c) % 3)
                    continue;
                std::vector<int> seq;
                std::string name;
                for (int i = 0, x = n; i < len; i++, x /= NM)
                {
                    seq.push_back(x % NM);
                    name += MOVES[x % NM].name;
                }
                if (! vh::begin("%s cfg%zu", name.c_str(), c))
                    continue;
                run(seq, CFGS[c]);
                vh::state(vh::mix(n * 16 + len, c));
            }
    }
}
int main(int argc, char** argv)
{
    spdlog::set_level(spdlog::level::off);
    return vh::main_(argc, argv, explore, 32);
}
