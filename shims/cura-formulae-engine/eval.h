// Stand-in for Ultimaker's cura-formulae-engine (not installable here): a small Python-like expression evaluator.
// Header-only. Supports what CuraEngine's own tests and settings use: numbers, strings, booleans, lists, identifiers,
// arithmetic, comparisons, and/or/not, indexing, if-else.
#include <spdlog/spdlog.h>
#ifndef VERIF_SHIM_CFE
#define VERIF_SHIM_CFE
#include <cctype>
#include <cmath>
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <sstream>
#include <string>
#include <string_view>
#include <unordered_map>
#include <variant>
#include <vector>

#include "zeus/expected.hpp"

namespace CuraFormulaeEngine
{
namespace eval
{
struct error_t { };
struct Value
{
    std::variant<std::monostate, bool, std::int64_t, double, std::string, std::vector<Value>> value;
    Value() = default;
    Value(bool b) : value(b) {}
    Value(std::int64_t i) : value(i) {}
    Value(int i) : value(static_cast<std::int64_t>(i)) {}
    Value(double d) : value(d) {}
    Value(const std::string& s) : value(s) {}
    Value(const char* s) : value(std::string(s)) {}
    Value(const std::vector<Value>& v) : value(v) {}
    std::string toString() const
    {
        std::ostringstream o;
        switch (value.index())
        {
        case 1: o << (std::get<bool>(value) ? "True" : "False"); break;
        case 2: o << std::get<std::int64_t>(value); break;
        case 3: o.precision(12); o << std::get<double>(value); break;
        case 4: o << std::get<std::string>(value); break;
        case 5:
        {
            o << '[';
            bool first = true;
            for (const Value& v : std::get<std::vector<Value>>(value)) { if (! first) o << ", "; first = false; o << v.toString(); }
            o << ']';
            break;
        }
        default: o << "None";
        }
        return o.str();
    }
    bool truthy() const
    {
        switch (value.index())
        {
        case 1: return std::get<bool>(value);
        case 2: return std::get<std::int64_t>(value) != 0;
        case 3: return std::get<double>(value) != 0.0;
        case 4: return ! std::get<std::string>(value).empty();
        case 5: return ! std::get<std::vector<Value>>(value).empty();
        default: return false;
        }
    }
    std::optional<double> num() const
    {
        switch (value.index())
        {
        case 1: return std::get<bool>(value) ? 1.0 : 0.0;
        case 2: return static_cast<double>(std::get<std::int64_t>(value));
        case 3: return std::get<double>(value);
        default: return std::nullopt;
        }
    }
    bool isInt() const { return value.index() == 2 || value.index() == 1; }
};
using Result = zeus::expected<Value, error_t>;
} // namespace eval

namespace env
{
class Environment
{
public:
    virtual ~Environment() = default;
    virtual std::optional<eval::Value> get(const std::string& k) const noexcept = 0;
    virtual bool has(const std::string& k) const noexcept = 0;
    virtual std::unordered_map<std::string, eval::Value> getAll() const noexcept = 0;
};
class ChainableEnvironment : public Environment
{
    const Environment* next_;
public:
    explicit ChainableEnvironment(const Environment* next = nullptr) : next_(next) {}
    std::optional<eval::Value> get(const std::string& k) const noexcept override
    {
        if (hasImpl(k)) { auto v = getImpl(k); if (v) return v; }
        return next_ ? next_->get(k) : std::nullopt;
    }
    bool has(const std::string& k) const noexcept override { return hasImpl(k) || (next_ && next_->has(k)); }
    std::unordered_map<std::string, eval::Value> getAll() const noexcept override
    {
        auto r = getAllImpl();
        if (next_) for (auto& [k, v] : next_->getAll()) r.emplace(k, v);
        return r;
    }
protected:
    virtual std::optional<eval::Value> getImpl(const std::string&) const noexcept = 0;
    virtual bool hasImpl(const std::string&) const noexcept = 0;
    virtual std::unordered_map<std::string, eval::Value> getAllImpl() const noexcept = 0;
};
class EnvironmentMap : public ChainableEnvironment
{
protected:
    std::unordered_map<std::string, eval::Value> m_;
public:
    explicit EnvironmentMap(const Environment* next = nullptr) : ChainableEnvironment(next) {}
    void set(const std::string& k, const eval::Value& v) { m_.insert_or_assign(k, v); }
    void add(const std::unordered_map<std::string, eval::Value>& all) { for (auto& [k, v] : all) set(k, v); }
protected:
    std::optional<eval::Value> getImpl(const std::string& k) const noexcept override
    {
        auto it = m_.find(k);
        return it == m_.end() ? std::nullopt : std::optional<eval::Value>(it->second);
    }
    bool hasImpl(const std::string& k) const noexcept override { return m_.count(k) > 0; }
    std::unordered_map<std::string, eval::Value> getAllImpl() const noexcept override { return m_; }
};
class LocalEnvironment : public EnvironmentMap
{
public:
    explicit LocalEnvironment(const Environment* next = nullptr) : EnvironmentMap(next) {}
};
inline const EnvironmentMap std_env{};
} // namespace env

namespace ast
{
struct Expr
{
    std::function<std::optional<eval::Value>(const env::Environment*)> f;
};
struct ExprPtr
{
    std::shared_ptr<Expr> p;
    eval::Result evaluate(const env::Environment* e) const
    {
        auto r = p->f(e);
        if (r) return eval::Result(*r);
        return eval::Result(eval::Result::unexpect{}, eval::error_t{});
    }
};
} // namespace ast

namespace parser
{
struct error_t { };
using F = std::function<std::optional<eval::Value>(const env::Environment*)>;
class P
{
    std::string_view s;
    size_t i = 0;
    bool bad = false;
    void ws() { while (i < s.size() && std::isspace((unsigned char)s[i])) i++; }
    static bool idc(char c) { return std::isalnum((unsigned char)c) || c == '_'; }
    bool kw(const char* k)
    {
        ws();
        std::string_view v(k);
        if (s.substr(i, v.size()) != v) return false;
        if (idc(v.back()) && i + v.size() < s.size() && idc(s[i + v.size()])) return false;
        i += v.size();
        return true;
    }
    using V = eval::Value;
    using O = std::optional<V>;
    static O arith(char op, const V& a, const V& b)
    {
        if (op == '+' && a.value.index() == 4 && b.value.index() == 4) return V(std::get<std::string>(a.value) + std::get<std::string>(b.value));
        auto x = a.num(), y = b.num();
        if (! x || ! y) return std::nullopt;
        bool ints = a.isInt() && b.isInt();
        auto mk = [&](double d) { return ints ? V(static_cast<std::int64_t>(d)) : V(d); };
        switch (op)
        {
        case '+': return mk(*x + *y);
        case '-': return mk(*x - *y);
        case '*': return mk(*x * *y);
        case '/': if (*y == 0) return std::nullopt; return V(*x / *y);
        case 'f': if (*y == 0) return std::nullopt; return mk(std::floor(*x / *y));
        case '%': if (*y == 0) return std::nullopt; return mk(*x - *y * std::floor(*x / *y));
        }
        return std::nullopt;
    }
    static O cmp(const std::string& op, const V& a, const V& b)
    {
        int c;
        if (a.value.index() == 4 && b.value.index() == 4) c = std::get<std::string>(a.value).compare(std::get<std::string>(b.value));
        else
        {
            auto x = a.num(), y = b.num();
            if (! x || ! y) { if (op == "==") return V(false); if (op == "!=") return V(true); return std::nullopt; }
            c = *x < *y ? -1 : *x > *y ? 1 : 0;
        }
        if (op == "==") return V(c == 0);
        if (op == "!=") return V(c != 0);
        if (op == "<=") return V(c <= 0);
        if (op == ">=") return V(c >= 0);
        if (op == "<") return V(c < 0);
        return V(c > 0);
    }
    F prim()
    {
        ws();
        if (i >= s.size()) { bad = true; return {}; }
        char c = s[i];
        if (c == '(') { i++; F e = expr(); ws(); if (i >= s.size() || s[i] != ')') bad = true; else i++; return e; }
        if (c == '[')
        {
            i++;
            std::vector<F> es;
            ws();
            if (i < s.size() && s[i] == ']') i++;
            else
                while (! bad)
                {
                    es.push_back(expr());
                    ws();
                    if (i < s.size() && s[i] == ',') { i++; continue; }
                    if (i < s.size() && s[i] == ']') { i++; break; }
                    bad = true;
                }
            return [es](const env::Environment* e) -> O
            {
                std::vector<V> r;
                for (auto& f : es) { auto v = f(e); if (! v) return std::nullopt; r.push_back(*v); }
                return V(r);
            };
        }
        if (c == '"' || c == '\'')
        {
            size_t j = s.find(c, i + 1);
            if (j == std::string_view::npos) { bad = true; return {}; }
            std::string str(s.substr(i + 1, j - i - 1));
            i = j + 1;
            return [str](const env::Environment*) -> O { return V(str); };
        }
        if (std::isdigit((unsigned char)c) || c == '.')
        {
            size_t j = i;
            bool dbl = false;
            while (j < s.size() && (std::isdigit((unsigned char)s[j]) || s[j] == '.' || s[j] == 'e')) { if (! std::isdigit((unsigned char)s[j])) dbl = true; j++; }
            std::string n(s.substr(i, j - i));
            if (j < s.size() && idc(s[j])) { bad = true; return {}; }
            i = j;
            try
            {
                size_t used = 0;
                V v = dbl ? V(std::stod(n, &used)) : V(static_cast<std::int64_t>(std::stoll(n, &used)));
                if (used != n.size()) { bad = true; return {}; }
                return [v](const env::Environment*) -> O { return v; };
            }
            catch (...) { bad = true; return {}; }
        }
        if (std::isalpha((unsigned char)c) || c == '_')
        {
            size_t j = i;
            while (j < s.size() && idc(s[j])) j++;
            std::string id(s.substr(i, j - i));
            i = j;
            if (id == "True" || id == "true") return [](const env::Environment*) -> O { return V(true); };
            if (id == "False" || id == "false") return [](const env::Environment*) -> O { return V(false); };
            return [id](const env::Environment* e) -> O { return e ? e->get(id) : std::nullopt; };
        }
        bad = true;
        return {};
    }
    F post()
    {
        F a = prim();
        while (! bad)
        {
            ws();
            if (i < s.size() && s[i] == '[')
            {
                i++;
                F b = expr();
                ws();
                if (i >= s.size() || s[i] != ']') { bad = true; break; }
                i++;
                a = [a, b](const env::Environment* e) -> O
                {
                    auto x = a(e), y = b(e);
                    if (! x || ! y || x->value.index() != 5 || ! y->num()) return std::nullopt;
                    auto& v = std::get<std::vector<V>>(x->value);
                    auto n = static_cast<std::int64_t>(*y->num());
                    if (n < 0 || n >= static_cast<std::int64_t>(v.size())) return std::nullopt;
                    return v[n];
                };
            }
            else break;
        }
        return a;
    }
    F unary()
    {
        ws();
        if (i < s.size() && s[i] == '-')
        {
            i++;
            F a = unary();
            return [a](const env::Environment* e) -> O { auto x = a(e); if (! x) return x; return arith('-', V(std::int64_t(0)), *x); };
        }
        return post();
    }
    F mul()
    {
        F a = unary();
        while (! bad)
        {
            ws();
            char op = 0;
            if (s.substr(i, 2) == "//") { op = 'f'; i += 2; }
            else if (i < s.size() && (s[i] == '*' || s[i] == '/' || s[i] == '%')) op = s[i++];
            if (! op) break;
            F b = unary();
            a = [a, b, op](const env::Environment* e) -> O { auto x = a(e), y = b(e); if (! x || ! y) return std::nullopt; return arith(op, *x, *y); };
        }
        return a;
    }
    F add()
    {
        F a = mul();
        while (! bad)
        {
            ws();
            if (i >= s.size() || (s[i] != '+' && s[i] != '-')) break;
            char op = s[i++];
            F b = mul();
            a = [a, b, op](const env::Environment* e) -> O { auto x = a(e), y = b(e); if (! x || ! y) return std::nullopt; return arith(op, *x, *y); };
        }
        return a;
    }
    F comp()
    {
        F a = add();
        ws();
        static const char* ops[] = { "==", "!=", "<=", ">=", "<", ">" };
        for (auto o : ops)
            if (s.substr(i, std::string_view(o).size()) == o)
            {
                i += std::string_view(o).size();
                F b = add();
                std::string op = o;
                return [a, b, op](const env::Environment* e) -> O { auto x = a(e), y = b(e); if (! x || ! y) return std::nullopt; return cmp(op, *x, *y); };
            }
        return a;
    }
    F nott()
    {
        if (kw("not")) { F a = nott(); return [a](const env::Environment* e) -> O { auto x = a(e); if (! x) return x; return V(! x->truthy()); }; }
        return comp();
    }
    F andd()
    {
        F a = nott();
        while (! bad && kw("and")) { F b = nott(); a = [a, b](const env::Environment* e) -> O { auto x = a(e); if (! x || ! x->truthy()) return x; return b(e); }; }
        return a;
    }
    F orr()
    {
        F a = andd();
        while (! bad && kw("or")) { F b = andd(); a = [a, b](const env::Environment* e) -> O { auto x = a(e); if (! x || x->truthy()) return x; return b(e); }; }
        return a;
    }
    F expr()
    {
        F a = orr();
        if (! bad && kw("if"))
        {
            F c = orr();
            if (! kw("else")) { bad = true; return a; }
            F b = expr();
            return [a, b, c](const env::Environment* e) -> O { auto x = c(e); if (! x) return x; return x->truthy() ? a(e) : b(e); };
        }
        return a;
    }
public:
    explicit P(std::string_view t) : s(t) {}
    std::optional<F> run()
    {
        F f = expr();
        ws();
        if (bad || i != s.size() || ! f) return std::nullopt;
        return f;
    }
};
inline zeus::expected<ast::ExprPtr, error_t> parse(std::string_view t)
{
    using R = zeus::expected<ast::ExprPtr, error_t>;
    P p(t);
    auto f = p.run();
    if (! f) return R(R::unexpect{}, error_t{});
    auto e = std::make_shared<ast::Expr>();
    e->f = *f;
    return R(ast::ExprPtr{ e });
}
} // namespace parser
} // namespace CuraFormulaeEngine
#endif
