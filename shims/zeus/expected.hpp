// Stand-in for zeus::expected.
#ifndef VERIF_SHIM_ZEUS
#define VERIF_SHIM_ZEUS
#include <utility>
#include <variant>
namespace zeus
{
template<typename T, typename E>
class expected
{
    std::variant<T, E> v_;
public:
    expected(T t) : v_(std::in_place_index<0>, std::move(t)) {}
    struct unexpect {};
    expected(unexpect, E e) : v_(std::in_place_index<1>, std::move(e)) {}
    bool has_value() const { return v_.index() == 0; }
    explicit operator bool() const { return has_value(); }
    const T& value() const { return std::get<0>(v_); }
    T& value() { return std::get<0>(v_); }
    const T& operator*() const { return value(); }
    const T* operator->() const { return &value(); }
    const E& error() const { return std::get<1>(v_); }
};
} // namespace zeus
#endif
