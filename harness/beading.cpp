// C26: every strategy stack of the factory (a grid of parameters) on a dense range of thicknesses: bead counts, widths,
// locations and left-over against the definition of a bead distribution.
#include "BeadingStrategy/BeadingStrategyFactory.h"
#include "vh.h"
#include <numeric>
using namespace cura;
namespace
{
struct Par
{
    coord_t outer, inner;
    double split, add, ratio;
    bool thin;
    coord_t min_bead, min_feature, max;
    int radius;
};
std::string show(const BeadingStrategy::Beading& b)
{
    std::string s = "widths";
    for (coord_t w : b.bead_widths)
        s += " " + std::to_string(w);
    s += " at";
    for (coord_t w : b.toolpath_locations)
        s += " " + std::to_string(w);
    return s + " left over " + std::to_string(b.left_over);
}
BeadingStrategyPtr make(const Par& p, coord_t outer_offset, coord_t inner_offset)
{
    return BeadingStrategyFactory::makeStrategy(p.outer, p.inner, 400, 0.17, p.thin, p.min_bead, p.min_feature, Ratio(p.split), Ratio(p.add), p.max, outer_offset, inner_offset, p.radius, Ratio(p.ratio));
}
bool checkBeading(const Par& p, coord_t t, coord_t n, bool optimal, const BeadingStrategy::Beading& b)
{
#define BAD(...)                                                                 \
    do                                                                           \
    {                                                                            \
        char msg_[300];                                                          \
        snprintf(msg_, sizeof msg_, __VA_ARGS__);                                \
        vh::fail("thickness %lld with %lld beads: %s (%s)", (long long)t, (long long)n, msg_, show(b).c_str()); \
        return false;                                                            \
    } while (0)
    const size_t m = b.bead_widths.size();
    if (b.toolpath_locations.size() != m)
        BAD("%zu widths but %zu locations", m, b.toolpath_locations.size());
    if (b.total_thickness != t)
        BAD("total thickness %lld", (long long)b.total_thickness);
    const coord_t sum = std::accumulate(b.bead_widths.begin(), b.bead_widths.end(), coord_t(0));
    std::vector<size_t> real;
    for (size_t i = 0; i < m; i++)
    {
        if (b.bead_widths[i] < 0)
            BAD("bead %zu has negative width", i);
        if (b.bead_widths[i] > 0)
            real.push_back(i);
    }
    // thin walls: only a single bead, widened to its minimum
    if (p.thin && real.size() == 1 && sum == p.min_bead && t < p.min_bead)
    {
        if (b.left_over != 0)
            BAD("something left over beside a widened bead");
        if (t < p.min_feature)
            BAD("printed below the minimum feature size");
        if (std::abs(b.toolpath_locations[real[0]] - t / 2) > 1)
            BAD("widened bead not in the middle");
        return true;
    }
    if (sum + b.left_over != t)
        BAD("widths and left over add up to %lld", (long long)(sum + b.left_over));
    if (b.left_over < -(coord_t)m)
        BAD("negative left over");
    if ((coord_t)real.size() > p.max)
        BAD("%zu walls but at most %lld are allowed", real.size(), (long long)p.max);
    if (real.empty())
    {
        if (optimal && n > 0)
            BAD("nothing printed");
        if (m)
            BAD("only markers");
        return true;
    }
    // geometry: beads lie side by side from both borders inwards, markers on the inner border of the innermost beads
    const coord_t gap_ok = (coord_t)real.size() + 2;
    for (size_t i = 0; i < real.size(); i++)
    {
        const coord_t lo = b.toolpath_locations[real[i]] - b.bead_widths[real[i]] / 2, hi = lo + b.bead_widths[real[i]];
        if (i == 0 && std::abs(lo) > 1)
            BAD("the first bead starts at %lld", (long long)lo);
        if (i + 1 == real.size() && real.size() > 1 && std::abs(hi - t) > 2)
            BAD("the last bead ends at %lld", (long long)hi);
        if (i)
        {
            const coord_t plo = b.toolpath_locations[real[i - 1]] - b.bead_widths[real[i - 1]] / 2, phi = plo + b.bead_widths[real[i - 1]];
            if (lo < phi - gap_ok)
                BAD("beads %zu and %zu overlap", i - 1, i);
            const bool middle = real.size() % 2 == 0 && i == real.size() / 2;
            if (lo > phi + gap_ok && ! middle)
                BAD("a gap between beads %zu and %zu", i - 1, i);
            if (b.toolpath_locations[real[i]] < b.toolpath_locations[real[i - 1]])
                BAD("beads %zu and %zu are out of order", i - 1, i);
        }
        const size_t j = real.size() - 1 - i;
        if (std::abs(b.bead_widths[real[i]] - b.bead_widths[real[j]]) > 1)
            BAD("beads %zu and %zu differ in width", i, j);
        if (real.size() > 1 && std::abs(b.toolpath_locations[real[i]] + b.toolpath_locations[real[j]] - t) > gap_ok)
            BAD("beads %zu and %zu are not symmetric", i, j);
    }
    const bool limited = b.left_over > gap_ok;
    if (limited && (coord_t)real.size() != p.max)
        BAD("%lld left over though fewer than %lld walls are printed", (long long)b.left_over, (long long)p.max);
    const size_t markers = m - real.size();
    if ((coord_t)real.size() < p.max)
    {
        if (markers)
            BAD("a marker though more walls would be allowed");
    }
    else
    {
        if (markers != (optimal ? (n > p.max ? 2 : 1) : markers) || markers < 1 || markers > 2)
            BAD("%zu markers of the inner border", markers);
        const size_t h = real.size() / 2;
        for (size_t k = 0; k < markers; k++)
        {
            const size_t i = real[h - 1] + 1 + k;
            if (b.bead_widths[i] != 0)
                BAD("no marker in the middle");
            const coord_t border = k == 0 ? b.toolpath_locations[real[h - 1]] + b.bead_widths[real[h - 1]] / 2 : b.toolpath_locations[real[h]] - b.bead_widths[real[h]] / 2;
            if (std::abs(b.toolpath_locations[i] - border) > 2)
                BAD("the marker at %lld is not at the inner border %lld", (long long)b.toolpath_locations[i], (long long)border);
        }
    }
    // widths
    if (real.size() > 2)
    {
        if (b.bead_widths[real[0]] != std::min(p.outer, t / 2))
            BAD("the outer wall is not %lld wide", (long long)p.outer);
        coord_t inner_total = t - 2 * p.outer - b.left_over;
        const coord_t diff = inner_total - (coord_t)(real.size() - 2) * p.inner;
        const size_t cnt = real.size() - 2;
        for (size_t i = 0; i < cnt; i++)
        {
            const coord_t w = b.bead_widths[real[i + 1]] - p.inner;
            if (cnt > 2 && (diff >= 0 ? w < -1 : w > 1))
                BAD("inner bead %zu deviates to the wrong side", i);
            if (i && i <= (cnt - 1) / 2 && std::abs(w) + 1 < std::abs(b.bead_widths[real[i]] - p.inner))
                BAD("inner bead %zu deviates more than one further to the middle", i - 1);
            const double from_middle = std::abs((double)i - (cnt - 1) / 2.0);
            if (cnt > 2 && from_middle >= std::max(1, p.radius - 1) && std::abs(w) > 1)
                BAD("inner bead %zu outside the distribution range is not %lld wide", i, (long long)p.inner);
            if (cnt > 2 && from_middle < std::max(1, p.radius - 1) && std::abs(diff) > 40 * (coord_t)cnt && w == 0)
                BAD("inner bead %zu inside the distribution range takes no part", i);
        }
    }
    else if (! limited)
        for (size_t i : real)
            if (std::abs(b.bead_widths[i] - t / (coord_t)real.size()) > 1)
                BAD("%zu walls do not share the thickness", real.size());
    return true;
}
bool offsets(const Par& p, coord_t half, coord_t t, coord_t n, const BeadingStrategy::Beading& a, const BeadingStrategy::Beading& b, coord_t oo, coord_t io)
{
    if (a.bead_widths != b.bead_widths || a.left_over != b.left_over || a.total_thickness != b.total_thickness)
        BAD("an inset changes the widths");
    size_t real = 0;
    for (coord_t w : a.bead_widths)
        real += w > 0;
    for (size_t i = 0; i < a.toolpath_locations.size() && i * 2 < a.toolpath_locations.size(); i++) // the mirrored half of the distribution isn't used
    {
        coord_t want = a.toolpath_locations[i];
        if (a.bead_widths[i] == 0 && i) // a marker follows the bead whose border it marks
            want = a.bead_widths[i - 1] > 0 ? b.toolpath_locations[i - 1] + b.bead_widths[i - 1] / 2 : b.toolpath_locations[i];
        else if (real >= 2)
            want = i == 0 ? std::min(want + oo, half) : want + io;
        if (std::abs(b.toolpath_locations[i] - want) > 1)
            BAD("bead %zu inset from %lld to %lld instead of %lld", i, (long long)a.toolpath_locations[i], (long long)b.toolpath_locations[i], (long long)want);
    }
    return true;
}
void run(const Par& p, coord_t top)
{
    const BeadingStrategyPtr s = make(p, 0, 0), so = make(p, 37, 0), si = make(p, 0, -21), sb = make(p, 190, 13);
    coord_t prev_n = 0;
    BeadingStrategy::Beading prev;
    std::vector<coord_t> first(p.max + 2, -1);
    const coord_t wide = p.thin ? p.min_bead : 0; // below this a single bead is widened
    for (coord_t t = 0; t <= top; t++)
    {
        const coord_t n = s->getOptimalBeadCount(t);
        if (n < prev_n || n > p.max + 1)
        {
            vh::fail("thickness %lld: %lld beads after %lld (at most %lld)", (long long)t, (long long)n, (long long)prev_n, (long long)p.max);
            return;
        }
        for (coord_t k = prev_n + 1; k <= n; k++)
            first[k] = t;
        const coord_t nothing_below = p.thin ? p.min_feature : std::ceil(p.ratio * p.outer - 1e-9);
        if ((n == 0) != (t < nothing_below) && std::abs(t - nothing_below) > 1)
        {
            vh::fail("thickness %lld: %lld beads though walls start at %lld", (long long)t, (long long)n, (long long)nothing_below);
            return;
        }
        const BeadingStrategy::Beading b = s->compute(t, n);
        vh::trans();
        if (! checkBeading(p, t, n, true, b))
            return;
        uint64_t h = t * 31 + n;
        for (coord_t w : b.bead_widths)
            h = vh::mix(h, w);
        vh::state(h);
        size_t real = 0;
        for (coord_t w : b.bead_widths)
            real += w > 0;
        if (t >= wide && (coord_t)real != std::min(n, p.max))
        {
            vh::fail("thickness %lld: %zu beads where %lld are optimal", (long long)t, real, (long long)n);
            return;
        }
        if (t && n == prev_n && prev.bead_widths.size() == b.bead_widths.size())
            for (size_t i = 0; i < b.bead_widths.size(); i++)
                if (std::abs(b.bead_widths[i] - prev.bead_widths[i]) > 2 || std::abs(b.toolpath_locations[i] - prev.toolpath_locations[i]) > 2 + (coord_t)b.bead_widths.size())
                {
                    vh::fail("thickness %lld: bead %zu changes abruptly (%s -> %s)", (long long)t, i, show(prev).c_str(), show(b).c_str());
                    return;
                }
        const BeadingStrategy::Beading o = so->compute(t, n), i = si->compute(t, n), ob = sb->compute(t, n);
        if (so->getOptimalBeadCount(t) != n || si->getOptimalBeadCount(t) != n || sb->getOptimalBeadCount(t) != n)
        {
            vh::fail("thickness %lld: an inset changes the number of beads", (long long)t);
            return;
        }
        const coord_t half = (n > p.max ? s->getOptimalThickness(p.max) : t) / 2;
        if (! offsets(p, half, t, n, b, o, 37, 0) || ! offsets(p, half, t, n, b, i, 0, -21) || ! offsets(p, half, t, n, b, ob, 190, 13))
            return;
        prev_n = n;
        prev = b;
    }
    // transitions: where the optimal number changes, and both numbers give a distribution there
    for (coord_t k = 0; k <= p.max && first[k + 1] >= 0; k++)
    {
        const coord_t tt = s->getTransitionThickness(k), slack = k == p.max ? 12 : 2;
        const bool widened = p.thin && k == 0;
        if (std::abs(tt - first[k + 1]) > slack && ! (p.thin && first[k + 1] == p.min_feature && tt <= p.min_feature))
        {
            vh::fail("%lld beads from thickness %lld on but the transition is at %lld", (long long)k + 1, (long long)first[k + 1], (long long)tt);
            return;
        }
        if (k >= 1)
        {
            const coord_t ot = s->getOptimalThickness(k);
            if (ot > top)
                break;
            if (ot < p.min_feature && p.thin)
                continue;
            if (s->getOptimalBeadCount(ot) != k)
            {
                vh::fail("%lld is the optimal thickness of %lld beads but gets %lld", (long long)ot, (long long)k, (long long)s->getOptimalBeadCount(ot));
                return;
            }
            const BeadingStrategy::Beading b = s->compute(ot, k);
            size_t j = 0, real = 0;
            for (coord_t w : b.bead_widths)
                real += w > 0;
            for (coord_t w : b.bead_widths)
                if (w > 0)
                {
                    const bool outer = j == 0 || j + 1 == real;
                    if (std::abs(w - (outer ? p.outer : p.inner)) > 1 && ot >= wide)
                    {
                        vh::fail("beads at the optimal thickness %lld of %lld beads are not optimal: %s", (long long)ot, (long long)k, show(b).c_str());
                        return;
                    }
                    j++;
                }
            if (k < p.max)
            {
                const double a = s->getTransitionAnchorPos(k);
                if (! (a >= -0.02 && a <= 1.02))
                {
                    vh::fail("transition anchor of %lld beads at %f", (long long)k, a);
                    return;
                }
            }
        }
        if (k >= 1 && k < p.max && tt >= wide && ! widened)
            for (coord_t n = k; n <= k + 1; n++)
            {
                const BeadingStrategy::Beading b = s->compute(tt, n);
                vh::trans();
                if (! checkBeading(p, tt, n, false, b))
                    return;
            }
    }
    vh::outcome(vh::hash(&first[0], first.size() * sizeof first[0]));
}
void explore()
{
    const bool T = vh::thorough();
    const std::vector<coord_t> outs = T ? std::vector<coord_t>{ 300, 350, 400, 401, 500, 801 } : std::vector<coord_t>{ 350, 400, 501 };
    const std::vector<coord_t> inns = T ? std::vector<coord_t>{ 300, 350, 400, 433, 500, 800 } : std::vector<coord_t>{ 350, 400, 501 };
    const std::vector<double> thr = T ? std::vector<double>{ 0.01, 0.25, 0.5, 0.7, 0.99 } : std::vector<double>{ 0.1, 0.5, 0.9 };
    for (coord_t o : outs)
        for (coord_t i : inns)
            for (double sp : thr)
                for (double ad : thr)
                    for (double ra : { 0.25, 0.5, 0.85 })
                        for (int thin = 0; thin < 4; thin++)
                            for (coord_t mx : { 2, 4, 6, 8, 12 })
                                for (int rad : { 1, 2, 3, 5 })
                                {
                                    if (rad > 1 && mx < 6)
                                        continue; // fewer than three inner beads
                                    if (! T && ((thin && (mx == 2 || mx == 8)) || (rad == 5 && mx != 12)))
                                        continue;
                                    Par p{ o, i, sp, ad, ra, thin > 0, thin == 1 ? 85 : 340, thin == 3 ? 300 : 100, mx, rad };
                                    if (p.thin && p.min_bead > std::min(o, i))
                                        continue; // the minimum width of walls is no more than their width
                                    if (! vh::begin("outer %lld inner %lld split %.2f add %.2f ratio %.2f thin %d max %lld radius %d", (long long)o, (long long)i, sp, ad, ra, thin, (long long)mx, rad))
                                        continue;
                                    run(p, std::min<coord_t>((mx + 2) * std::max(o, i) + 50, T ? 9000 : 4500));
                                }
}
} // namespace
int main(int argc, char** argv)
{
    return vh::main_(argc, argv, explore, 4);
}
