// C31: every sequence of moves and control calls up to a length on the real estimator, against an independent planner (the
// fastest speed profile that respects the junction, acceleration and feed rate limits) and against physical bounds.
#include "PrintFeature.h"
#include "settings/Settings.h"
#include "settings/types/Duration.h"
#include "timeEstimate.h"
#include "vh.h"
#include <cmath>
using namespace cura;
namespace
{
using TE = TimeEstimateCalculator;
struct Limits
{
    double f[4], a[4], jxy, jz, je, minf, acc;
};
const std::vector<Limits> LIM = {
    { { 300, 300, 40, 45 }, { 9000, 9000, 100, 10000 }, 20, 0.4, 5, 0, 3000 }, // a common printer
    { { 50, 50, 50, 50 }, { 50, 50, 50, 50 }, 1000, 1000, 1000, 0, 50 }, // no limit on jerk
    { { 50, 50, 50, 50 }, { 50, 50, 50, 50 }, 0.1, 0.1, 0.1, 0, 50 }, // hardly any jerk
    { { 100, 60, 5, 10 }, { 500, 300, 20, 200 }, 8, 0.2, 2, 10, 1500 }, // axes limit the acceleration, slow moves are sped up
    { { 300, 300, 40, 45 }, { 200000, 200000, 200000, 200000 }, 10, 10, 1, 0, 100000 },
    { { 600, 600, 600, 12 }, { 3000, 3000, 100, 50 }, 15, 3, 1.5, 0, 2000 }, // the extruder limits everything
};
struct Move
{
    double d[4];
};
const std::vector<Move> MOVES = {
    { { 10, 0, 0, 0 } },      { { -10, 0, 0, 0.5 } }, { { 0, 10, 0, 0.5 } },  { { 7, 7, 0, 0.4 } },  { { 0.05, 0, 0, 0.002 } }, { { 0, 0, 0.2, 0 } },
    { { 0, 0, 0, -4.5 } },    { { 100, 20, 0, 4 } },  { { 0.3, 0.1, 0, 0 } }, { { 3, -3, 0.05, 0.1 } }, { { 0, 0, 0, 4.5 } },  { { 2, 0.2, 0, 0.1 } },
};
const double FEEDS[] = { 5, 60, 250 };
struct B
{
    double d, v, a, maxin, safe;
    int feature;
    double cur[4];
};
struct Model // the independent planner
{
    Limits l;
    double pos[4] = { 0, 0, 0, 0 }, extra = 0;
    std::vector<B> blocks;
    void move(const double* to, double feed, int feature)
    {
        double delta[4], longest = 0;
        for (int i = 0; i < 4; i++)
        {
            delta[i] = to[i] - pos[i];
            longest = std::max(longest, std::abs(delta[i]));
        }
        if (longest == 0)
            return;
        B b;
        b.feature = feature;
        feed = std::max(feed, l.minf);
        b.d = std::sqrt(delta[0] * delta[0] + delta[1] * delta[1] + delta[2] * delta[2]);
        if (b.d == 0)
            b.d = std::abs(delta[3]);
        b.v = feed;
        for (int i = 0; i < 4; i++)
            if (delta[i] != 0)
                b.v = std::min(b.v, l.f[i] * b.d / std::abs(delta[i]));
        b.a = l.acc;
        for (int i = 0; i < 4; i++)
            if (b.a * std::abs(delta[i]) / b.d > l.a[i])
                b.a = l.a[i]; // as firmware does: the limit of an axis is applied to the whole move
        for (int i = 0; i < 4; i++)
            b.cur[i] = delta[i] / b.d * b.v;
        b.safe = l.jxy / 2;
        if (std::abs(b.cur[2]) > l.jz / 2)
            b.safe = std::min(b.safe, l.jz / 2);
        if (std::abs(b.cur[3]) > l.je / 2)
            b.safe = std::min(b.safe, l.je / 2);
        b.safe = std::min(b.safe, b.v);
        b.maxin = std::min(b.safe, std::sqrt(0.05 * 0.05 + 2 * b.a * b.d)); // the first move is planned to be able to stop at its end
        if (! blocks.empty())
        {
            const B& p = blocks.back();
            double factor = 1;
            const double xy = std::hypot(b.cur[0] - p.cur[0], b.cur[1] - p.cur[1]), z = std::abs(b.cur[2] - p.cur[2]), e = std::abs(b.cur[3] - p.cur[3]);
            if (xy > l.jxy)
                factor = std::min(factor, l.jxy / xy);
            if (z > l.jz)
                factor = std::min(factor, l.jz / z);
            if (e > l.je)
                factor = std::min(factor, l.je / e);
            b.maxin = std::min(p.v, b.v * factor);
        }
        blocks.push_back(b);
        for (int i = 0; i < 4; i++)
            pos[i] = to[i];
    }
    std::vector<double> times(std::vector<double>& lower, std::vector<double>& upper) const
    {
        const size_t n = blocks.size();
        const size_t nf = (size_t)PrintFeatureType::NumPrintFeatureTypes;
        std::vector<double> v(n + 1), t(nf, 0);
        lower.assign(nf, 0);
        upper.assign(nf, 0);
        if (n)
        {
            v[n] = 0.05;
            for (size_t i = n; i-- > 0;)
                v[i] = std::min(blocks[i].maxin, std::sqrt(v[i + 1] * v[i + 1] + 2 * blocks[i].a * blocks[i].d));
            for (size_t i = 0; i + 1 < n; i++)
                v[i + 1] = std::min(v[i + 1], std::sqrt(v[i] * v[i] + 2 * blocks[i].a * blocks[i].d));
        }
        for (size_t i = 0; i < n; i++)
        {
            const B& b = blocks[i];
            const auto time = [&](double in, double out)
            {
                // the highest speed reached
                const double top = std::min(b.v, std::sqrt(b.a * b.d + in * in / 2 + out * out / 2));
                const double d1 = std::max(0.0, (top * top - in * in) / (2 * b.a)), d2 = std::max(0.0, (top * top - out * out) / (2 * b.a));
                return std::max(0.0, top - in) / b.a + std::max(0.0, top - out) / b.a + std::max(0.0, b.d - d1 - d2) / b.v;
            };
            t[b.feature] += time(v[i], v[i + 1]);
            lower[b.feature] += b.d / b.v;
            upper[b.feature] += time(0, 0);
        }
        t[(size_t)PrintFeatureType::NoneType] += extra;
        lower[(size_t)PrintFeatureType::NoneType] += extra;
        upper[(size_t)PrintFeatureType::NoneType] += extra;
        return t;
    }
};
void defaults(TE& te, const Limits& l)
{
    Settings s;
    const char* ax = "xyze";
    for (int i = 0; i < 4; i++)
    {
        s.add(std::string("machine_max_feedrate_") + ax[i], std::to_string(l.f[i]));
        s.add(std::string("machine_max_acceleration_") + ax[i], std::to_string(l.a[i]));
    }
    s.add("machine_max_jerk_xy", std::to_string(l.jxy));
    s.add("machine_max_jerk_z", std::to_string(l.jz));
    s.add("machine_max_jerk_e", std::to_string(l.je));
    s.add("machine_minimum_feedrate", std::to_string(l.minf));
    s.add("machine_acceleration", std::to_string(l.acc));
    te.setFirmwareDefaults(s);
    te.setPosition(TE::Position(0, 0, 0, 0));
}
// operations: 0..35 moves (12 displacements x 3 feed rates), 36.. control calls
enum
{
    STAY = 36,
    ACC,
    JERK,
    EXTRA,
    JUMP,
    CALC,
    RESET,
    NOPS
};
const int FEATURES[] = { (int)PrintFeatureType::OuterWall, (int)PrintFeatureType::MoveRetracted, (int)PrintFeatureType::NoneType };
std::string show(const std::vector<int>& ops)
{
    std::string s;
    for (int o : ops)
        s += " " + std::to_string(o);
    return s;
}
void apply(TE& te, Model& m, int op, int step)
{
    const int feature = FEATURES[step % 3];
    double to[4];
    for (int i = 0; i < 4; i++)
        to[i] = m.pos[i] + (op < STAY ? MOVES[op / 3].d[i] : 0);
    switch (op)
    {
    default:
        te.plan(TE::Position(to[0], to[1], to[2], to[3]), Velocity(FEEDS[op % 3]), (PrintFeatureType)feature);
        m.move(to, FEEDS[op % 3], feature);
        break;
    case STAY:
        te.plan(TE::Position(to[0], to[1], to[2], to[3]), Velocity(30), (PrintFeatureType)feature);
        break;
    case ACC:
        te.setAcceleration(Acceleration(400));
        m.l.acc = 400;
        break;
    case JERK:
        te.setMaxXyJerk(Velocity(3));
        m.l.jxy = 3;
        break;
    case EXTRA:
        te.addTime(Duration(2.5));
        m.extra += 2.5;
        break;
    case JUMP:
        to[0] += 5;
        to[3] = 0;
        te.setPosition(TE::Position(to[0], to[1], to[2], to[3]));
        for (int i = 0; i < 4; i++)
            m.pos[i] = to[i];
        break;
    case CALC:
        te.calculate();
        break;
    case RESET:
        te.reset();
        m.blocks.clear();
        m.extra = 0;
        break;
    }
}
bool verify(TE te, const Model& m, const std::vector<int>& ops)
{
    vh::trans();
    std::vector<double> lower, upper;
    const std::vector<double> want = m.times(lower, upper);
    for (int round = 0; round < 2; round++) // calculating doesn't change anything
    {
        const std::vector<Duration> got = te.calculate();
        if (got.size() != want.size())
        {
            vh::fail("%zu categories", got.size());
            return false;
        }
        double total = 0;
        for (size_t i = 0; i < got.size(); i++)
        {
            const double g = got[i];
            const double eps = 1e-5 * (1 + std::abs(want[i]));
            const char* bad = ! (g >= 0)                         ? "is negative"
                            : g < lower[i] - eps                 ? "is below what the feed rates allow"
                            : g > upper[i] + eps                 ? "is above that of stopping at every corner"
                            : std::abs(g - want[i]) > eps * 10   ? "is not that of the fastest permitted motion"
                                                                 : nullptr;
            if (bad)
            {
                vh::fail("operations%s: the time of category %zu %s: %.9f, expected %.9f (at least %.9f, at most %.9f)%s", show(ops).c_str(), i, bad, g, want[i], lower[i], upper[i], round ? " when calculated again" : "");
                return false;
            }
            total += g;
        }
        if (! round)
        {
            vh::state(vh::hash(&total, sizeof total));
            if (vh::g.verbose)
                fprintf(stderr, "total %f\n", total);
        }
    }
    return true;
}
bool rec(const TE& te, const Model& m, std::vector<int>& ops, const std::vector<int>& alphabet, int depth)
{
    for (int op : alphabet)
    {
        TE t = te;
        Model n = m;
        ops.push_back(op);
        apply(t, n, op, (int)ops.size());
        if (! verify(t, n, ops))
            return false;
        if (depth > 1 && ! rec(t, n, ops, alphabet, depth - 1))
            return false;
        ops.pop_back();
    }
    return true;
}
void explore()
{
    const bool T = vh::thorough();
    std::vector<int> all, moves, mixed;
    for (int i = 0; i < NOPS; i++)
        all.push_back(i);
    for (int i : { 1, 2, 5, 7, 11, 14, 17, 18, 22, 23, 26, 28, 31, 35 })
        moves.push_back(i);
    mixed = { 2, 5, 10, 13, 23, 32 };
    for (int i = STAY; i < NOPS; i++)
        mixed.push_back(i);
    const auto run = [&](const char* what, const std::vector<int>& alphabet, int depth)
    {
        for (size_t l = 0; l < LIM.size(); l++)
            for (int first : alphabet)
                for (int second : alphabet)
                {
                    if (! vh::begin("%s limits %zu operations %d %d + %d", what, l, first, second, depth - 2))
                        continue;
                    TE te;
                    defaults(te, LIM[l]);
                    Model m;
                    m.l = LIM[l];
                    std::vector<int> ops{ first };
                    apply(te, m, first, 1);
                    if (! verify(te, m, ops))
                        continue;
                    ops.push_back(second);
                    apply(te, m, second, 2);
                    if (verify(te, m, ops) && depth > 2)
                        rec(te, m, ops, alphabet, depth - 2);
                }
    };
    run("all", all, T ? 4 : 3);
    run("moves", moves, T ? 6 : 5);
    run("control", mixed, T ? 6 : 5);
}
} // namespace
int main(int argc, char** argv)
{
    return vh::main_(argc, argv, explore, 4);
}
