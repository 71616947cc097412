// Stand-in for boost::concurrent_flat_set (Boost 1.84; 1.83 is installed), on boost::concurrent_flat_map.
#ifndef VERIF_SHIM_CFS
#define VERIF_SHIM_CFS
#include <boost/unordered/concurrent_flat_map.hpp>
namespace boost
{
template<class K, class H = boost::hash<K>, class E = std::equal_to<K>>
class concurrent_flat_set
{
    concurrent_flat_map<K, char, H, E> m_;
public:
    template<class U> bool insert(U&& k) { return m_.try_emplace(K(std::forward<U>(k)), char(0)); }
    template<class... A> bool emplace(A&&... a) { return insert(K(std::forward<A>(a)...)); }
    template<class F> std::size_t visit_all(F f) const { return m_.cvisit_all([&](const auto& kv) { f(kv.first); }); }
    template<class F> std::size_t cvisit_all(F f) const { return visit_all(f); }
    template<class Ex, class F> void visit_all(Ex&& ex, F f) const { m_.cvisit_all(std::forward<Ex>(ex), [&](const auto& kv) { f(kv.first); }); }
    template<class F> std::size_t visit(const K& k, F f) const { return m_.cvisit(k, [&](const auto& kv) { f(kv.first); }); }
    bool contains(const K& k) const { return m_.contains(k); }
    bool empty() const { return m_.empty(); }
    std::size_t size() const { return m_.size(); }
    void clear() { m_.clear(); }
    template<class F> std::size_t erase_if(F f) { return m_.erase_if([&](auto& kv) { return f(kv.first); }); }
    template<class Ex, class F> void erase_if(Ex&& ex, F f) { m_.erase_if(std::forward<Ex>(ex), [&](auto& kv) { return f(kv.first); }); }
    template<class U> std::size_t erase(const U& k) { return m_.erase(k); }
};
} // namespace boost
#endif
