// Stand-in for mapbox wagyu (not installable here): the union is computed by Clipper with strictly simple output.
#ifndef VERIF_SHIM_WAGYU
#define VERIF_SHIM_WAGYU
#include <polyclipping/clipper.hpp>
#include <vector>
namespace mapbox::geometry
{
template<class T> struct point { T x; T y; };
template<class T> struct linear_ring : std::vector<point<T>> { using std::vector<point<T>>::vector; linear_ring() = default; linear_ring(std::vector<point<T>>&& v) : std::vector<point<T>>(std::move(v)) {} };
template<class T> struct polygon : std::vector<linear_ring<T>> { };
template<class T> struct multi_polygon : std::vector<polygon<T>> { };
namespace wagyu
{
enum clip_type { clip_type_union };
enum fill_type { fill_type_even_odd };
template<class T> class wagyu
{
    ClipperLib::Clipper c_;
public:
    void add_ring(const linear_ring<T>& r)
    {
        ClipperLib::Path p;
        for (auto& q : r) p.emplace_back(q.x, q.y);
        c_.AddPath(p, ClipperLib::ptSubject, true);
    }
    bool execute(clip_type, multi_polygon<T>& out, fill_type, fill_type)
    {
        ClipperLib::Paths ps;
        c_.StrictlySimple(true);
        c_.Execute(ClipperLib::ctUnion, ps, ClipperLib::pftEvenOdd, ClipperLib::pftEvenOdd);
        out.emplace_back();
        for (auto& p : ps)
        {
            linear_ring<T> r;
            for (auto& q : p) r.push_back({ q.X, q.Y });
            if (! r.empty()) r.push_back(r.front());
            out.back().push_back(r);
        }
        return true;
    }
};
} // namespace wagyu
} // namespace mapbox::geometry
#endif
