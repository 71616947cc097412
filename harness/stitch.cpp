// C19: every set of a few lines between points of a small cloud with near-coincident points. The real stitcher's result must
// be one of the outcomes of a nondeterministic specification (any permitted next line at each step), explored exhaustively.
#include "shapes.h"
#include "geometry/ClosedLinesSet.h"
#include "geometry/MixedLinesSet.h"
#include "geometry/OpenLinesSet.h"
#include "geometry/OpenPolyline.h"
#include "utils/ExtrusionLine.h"
#include "utils/ExtrusionLineStitcher.h"
#include "utils/MixedPolylineStitcher.h"
#include "utils/OpenPolylineStitcher.h"

using namespace cura;
using namespace vs;

namespace
{
struct In
{
    Path p;
    bool odd = false; // extrusion lines only
};
struct Out
{
    bool closed;
    bool odd;
    Path p;
    bool operator<(const Out& o) const
    {
        return closed != o.closed ? closed < o.closed : odd != o.odd ? odd < o.odd : p < o.p;
    }
    bool operator==(const Out& o) const
    {
        return closed == o.closed && odd == o.odd && p == o.p;
    }
};
using Outs = std::vector<Out>;
double len(P a, P b)
{
    return std::hypot((double)(a.x - b.x), (double)(a.y - b.y));
}
double length(const Path& p)
{
    double s = 0;
    for (size_t i = 1; i < p.size(); i++)
        s += len(p[i - 1], p[i]);
    return s;
}
struct Spec
{
    const std::vector<In>& in;
    double maxd, snap;
    bool ext; // extrusion lines: even ones keep their direction, only equal parity joins
    const Outs& want; // sorted; search for exactly this outcome
    uint64_t n = 0;
    bool canRev(int i) const
    {
        return ! ext || in[i].odd;
    }
    struct State
    {
        unsigned used = 0;
        Outs out;
        int seed = -1;
        int dir = 0;
        Path chain;
        bool odd = false;
    };
    bool emit(State s, bool closed)
    {
        Path p = s.chain;
        if (closed)
        {
            if (s.dir)
                std::reverse(p.begin(), p.end());
        }
        else if (! canRev(s.seed))
            std::reverse(p.begin(), p.end());
        Out o{ closed, s.odd, p };
        if (! closed && canRev(s.seed))
        {
            // direction of an open line that may be reversed does not matter
            Out r = o;
            std::reverse(r.p.begin(), r.p.end());
            bool found = false;
            for (Out* c : { &o, &r })
                if (! found && std::count(want.begin(), want.end(), *c) > std::count(s.out.begin(), s.out.end(), *c))
                {
                    s.out.push_back(*c);
                    found = true;
                }
            if (! found)
                return false;
        }
        else
        {
            if (std::count(want.begin(), want.end(), o) <= std::count(s.out.begin(), s.out.end(), o))
                return false;
            s.out.push_back(o);
        }
        return seeds(s);
    }
    bool seeds(State s)
    {
        for (size_t i = 0; i < in.size(); i++)
            if (! (s.used >> i & 1))
            {
                s.used |= 1u << i;
                s.seed = (int)i;
                s.dir = 0;
                s.chain = in[i].p;
                s.odd = in[i].odd;
                return extend(s);
            }
        std::sort(s.out.begin(), s.out.end());
        return s.out == want;
    }
    bool extend(State s)
    {
        n++;
        const P from = s.chain.back(), front = s.chain.front();
        struct Cand
        {
            double d, lo, hi;
            int line; // -1: close
            bool start;
            bool optional;
        };
        std::vector<Cand> c;
        const double l = length(s.chain), slack = 2. * s.chain.size() + 2;
        for (size_t i = 0; i < in.size(); i++)
            for (int e = 0; e < 2; e++)
            {
                const P q = e ? in[i].p.back() : in[i].p.front();
                const double d = len(from, q);
                if (d > maxd + 1)
                    continue;
                bool rev = e != 0;
                rev = rev != (s.dir != 0);
                const bool near_front = len(q, front) < snap;
                const bool dirok = ! (rev && ! canRev((int)i)) && (! ext || in[i].odd == s.odd);
                if (near_front && s.chain.size() > 2 && l + d > 3 * maxd - slack && dirok)
                    c.push_back({ d, d - 10, d + 10, -1, false, l + d < 3 * maxd + slack || d > maxd - 1 });
                if (s.used >> i & 1)
                    continue;
                if (! dirok)
                    continue;
                c.push_back({ d, d, d, (int)i, e == 0, near_front || d > maxd - 1 });
            }
        double best = 1e300;
        bool forced = false, snapping = false;
        for (auto& x : c)
            if (! x.optional)
            {
                best = std::min(best, x.hi);
                forced = true;
                snapping |= x.lo < snap;
            }
        if (! forced)
        {
            // nothing that has to be taken: this end may be finished
            State t = s;
            if (s.dir == 0)
            {
                t.dir = 1;
                std::reverse(t.chain.begin(), t.chain.end());
                if (extend(t))
                    return true;
            }
            else if (emit(t, false))
                return true;
        }
        for (auto& x : c)
        {
            if (x.lo > best + 1 && ! (x.lo < snap + 1))
                continue;
            State t = s;
            if (x.line < 0)
            {
                if (emit(t, true))
                    return true;
                continue;
            }
            Path q = in[x.line].p;
            if (! x.start)
                std::reverse(q.begin(), q.end());
            t.used |= 1u << x.line;
            for (int skip = 0; skip < 2; skip++)
            {
                // first vertex left out when it is the same point, within the snapping distance
                if (skip ? ! (x.d < snap) : (x.d < snap - 1))
                    continue;
                State u = t;
                u.chain.insert(u.chain.end(), q.begin() + skip, q.end());
                if (extend(u))
                    return true;
            }
        }
        return false;
    }
};
OpenLinesSet toLines(const std::vector<In>& in)
{
    OpenLinesSet r;
    for (auto& l : in)
    {
        OpenPolyline o;
        for (auto& q : l.p)
            o.push_back(Point2LL(q.x, q.y));
        r.push_back(o);
    }
    return r;
}
std::string show(const Outs& o)
{
    std::string s;
    for (auto& x : o)
        s += (x.closed ? "closed" : "open") + str({ x.p }) + " ";
    return s;
}
void judge(const std::vector<In>& in, Outs got, double maxd, double snap, bool ext, const char* what)
{
    vh::trans();
    std::sort(got.begin(), got.end());
    uint64_t h = got.size();
    size_t nclosed = 0;
    for (auto& o : got)
    {
        h = vh::mix(h, vh::mix(o.closed, hashPaths({ o.p })));
        nclosed += o.closed;
    }
    vh::state(h);
    vh::outcome(vh::mix(in.size(), vh::mix(got.size(), nclosed)));
    Spec s{ in, maxd, snap, ext, got };
    if (! s.seeds({}))
    {
        std::string a;
        for (auto& i : in)
            a += str({ i.p }) + (ext ? (i.odd ? "odd " : "even ") : " ");
        vh::fail("%s: %s-> %s is no outcome of stitching with distance %g, snapping %g", what, a.c_str(), show(got).c_str(), maxd, snap);
    }
    vh::note("specification steps", s.n);
}
void runPoly(const std::vector<In>& in, i64 maxd, i64 snap)
{
    {
        OpenLinesSet open;
        Shape closed;
        OpenPolylineStitcher::stitch(toLines(in), open, closed, maxd, snap);
        Outs got;
        for (auto& l : open)
            got.push_back({ false, false, fromLine(l) });
        for (auto& l : closed)
            got.push_back({ true, false, fromLine(l) });
        judge(in, got, maxd, snap, false, "lines");
    }
    {
        MixedLinesSet r;
        MixedPolylineStitcher::stitch(toLines(in), r, maxd, snap);
        Outs got;
        for (auto& l : r)
            got.push_back({ std::dynamic_pointer_cast<ClosedPolyline>(l) != nullptr, false, fromLine(*l) });
        judge(in, got, maxd, snap, false, "mixed lines");
    }
}
void runExt(const std::vector<In>& in, i64 maxd, i64 snap)
{
    std::vector<VariableWidthLines> d(3);
    for (auto& l : in)
    {
        ExtrusionLine e(l.odd ? 1 : 0, l.odd);
        for (auto& q : l.p)
            e.emplace_back(Point2LL(q.x, q.y), 400, l.odd ? 1 : 0);
        d[0].push_back(e);
    }
    ExtrusionLineStitcher::stitch(d[0], d[1], d[2], maxd, snap);
    Outs got;
    for (int c = 0; c < 2; c++)
        for (auto& l : d[1 + c])
        {
            Path p;
            for (auto& j : l)
                p.push_back({ j.p_.X, j.p_.Y });
            got.push_back({ c == 1, l.is_odd_, p });
        }
    judge(in, got, maxd, snap, true, "extrusion lines");
}
const std::vector<P>& cloud()
{
    static const std::vector<P> v = { { 0, 0 }, { 6, 0 }, { 0, 80 }, { 60, 60 }, { 400, 0 }, { 405, 3 }, { 400, 400 }, { 330, 400 }, { 0, 400 } };
    return v;
}
void explore()
{
    const bool T = vh::thorough();
    const auto& c = cloud();
    const int k = (int)c.size();
    std::vector<Path> two, three;
    for (int a = 0; a < k; a++)
        for (int b = 0; b < k; b++)
            if (a != b || a == 0)
                two.push_back({ c[a], c[b] });
    for (int a = 0; a < k; a++)
        for (int b = 2; b < k; b++)
            for (int e = 0; e < k; e += 2)
                if (a != b && b != e)
                    three.push_back({ c[a], c[b], c[e] });
    struct Par
    {
        i64 m, s;
    };
    const std::vector<Par> pars = { { 100, 10 }, { 70, 10 }, { 20, 5 }, { 85, 30 } };
    auto mv = [](Path p, P t)
    {
        for (P& q : p)
            q = { q.x + t.x, q.y + t.y };
        return p;
    };
    const std::vector<P> offs = { { 0, 0 }, { -203, -150 }, { 1234567, -7654321 } };
    for (size_t pi = 0; pi < pars.size(); pi++)
        for (size_t oi = 0; oi < offs.size(); oi++)
        {
            auto all = [&](const std::vector<Path>& A, const std::vector<Path>& B, const std::vector<Path>* C, const std::vector<Path>* D, const char* name, int stride)
            {
                for (size_t i = 0; i < A.size(); i++)
                    for (size_t j = 0; j < B.size(); j++)
                    {
                        if (! vh::begin("%s distance %lld snap %lld offset %zu first %zu second %zu", name, pars[pi].m, pars[pi].s, oi, i, j))
                            continue;
                        std::vector<In> in{ { mv(A[i], offs[oi]) }, { mv(B[j], offs[oi]) } };
                        if (! C)
                        {
                            runPoly(in, pars[pi].m, pars[pi].s);
                            for (int odd = 0; odd < 4; odd++)
                            {
                                in[0].odd = odd & 1;
                                in[1].odd = odd >> 1;
                                runExt(in, pars[pi].m, pars[pi].s);
                            }
                            continue;
                        }
                        for (size_t q = (i * 7 + j) % stride; q < C->size() && ! vh::g.case_failed; q += stride)
                        {
                            in.resize(2);
                            in.push_back({ mv((*C)[q], offs[oi]) });
                            if (! D)
                            {
                                for (auto& l : in)
                                    l.odd = false;
                                runPoly(in, pars[pi].m, pars[pi].s);
                                for (int odd = 0; odd < 8; odd += (odd == 0 ? 1 : odd == 1 ? 3 : odd == 4 ? 3 : 9))
                                {
                                    for (int z = 0; z < 3; z++)
                                        in[z].odd = odd >> z & 1;
                                    runExt(in, pars[pi].m, pars[pi].s);
                                }
                                continue;
                            }
                            for (auto& l : in)
                                l.odd = false;
                            for (size_t w = (i + j * 5 + q * 3) % stride; w < D->size(); w += stride)
                            {
                                in.resize(3);
                                in.push_back({ mv((*D)[w], offs[oi]) });
                                runPoly(in, pars[pi].m, pars[pi].s);
                            }
                        }
                    }
            };
            all(two, two, nullptr, nullptr, "2+2", 1);
            all(three, two, nullptr, nullptr, "3+2", 1);
            if (oi == 0 || T)
            {
                all(two, two, &two, nullptr, "2+2+2", T ? 1 : 5);
                all(two, three, &two, nullptr, "2+3+2", T ? 3 : 31);
                all(two, two, &two, &two, "2+2+2+2", T ? 7 : 29);
            }
        }
}
} // namespace
int main(int argc, char** argv)
{
    return vh::main_(argc, argv, explore, 16);
}
