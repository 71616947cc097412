// C09: every template of up to a number of tokens, in every extruder context, against a reference interpreter of the directives.
#include "Application.h"
#include "ExtruderTrain.h"
#include "Slice.h"
#include "gcode_export/GcodeTemplateResolver.h"
#include "vh.h"
#include <cura-formulae-engine/eval.h>
#include <optional>
#include <spdlog/spdlog.h>
using namespace cura;
namespace
{
enum Kind
{
    TEXT,
    VALUE,
    IF,
    ELIF,
    ELSE,
    ENDIF
};
struct Token
{
    const char* text;
    Kind kind;
    const char* what; // VALUE: name of the value; IF/ELIF: name of the condition
    int extruder; // -1: context
    bool eol; // a line end belongs to the directive
};
const std::vector<Token> TOKENS = {
    { "G1 X5\n", TEXT, "", -1, false },
    { "Y", TEXT, "", -1, false },
    { "}\n", TEXT, "", -1, false },
    { "{bed}", VALUE, "bed", -1, false },
    { "{ bed }\n", VALUE, "bed", -1, true },
    { "{temp}", VALUE, "temp", -1, false },
    { "{temp, 1}\n", VALUE, "temp", 1, true },
    { "{temp,0}", VALUE, "temp", 0, false },
    { "{name,7}", VALUE, "name", 99, false },
    { "{temp, other}", VALUE, "temp", 98, false },
    { "{name}", VALUE, "name", -1, false },
    { "{missing}", VALUE, "missing", -1, false },
    { "{local}", VALUE, "local", -1, false },
    { "{initial_extruder_nr}", VALUE, "initial", -1, false },
    { "{if bed > 30}\n", IF, "true", -1, true },
    { "{if bed<30}", IF, "false", -1, false },
    { "{ if  temp > 200 , 1 }\n", IF, "hot", 1, true },
    { "{if temp > 200}", IF, "hot", -1, false },
    { "{if missing}\n", IF, "missing", -1, true },
    { "{if bed}", IF, "number", -1, false },
    { "{elif bed > 30}\n", ELIF, "true", -1, true },
    { "{elif False}", ELIF, "false", -1, false },
    { "{elif missing > 1}", ELIF, "missing", -1, false },
    { "{elif 0}\n", ELIF, "number", -1, true },
    { "{else}\n", ELSE, "", -1, true },
    { "{ else }", ELSE, "", -1, false },
    { "{endif}\n", ENDIF, "", -1, true },
    { "{endif}", ENDIF, "", -1, false },
};
struct Context
{
    int extruder; // -1 global, -2 initial, or the number
    int initial;
};
std::optional<std::string> value(const std::string& name, int ctx, int initial)
{
    if (name == "bed")
        return "50";
    if (name == "name")
        return ctx == 1 ? "second one" : "abc";
    if (name == "temp")
        return ctx == 0 ? std::optional<std::string>("190.5") : ctx == 1 ? std::optional<std::string>("210") : std::nullopt;
    if (name == "local")
        return "17";
    if (name == "initial")
        return std::to_string(initial);
    return {};
}
std::string reference(const std::vector<int>& t, const Context& c)
{
    std::string raw, out;
    for (int i : t)
        raw += TOKENS[i].text;
    const int base = c.extruder == -2 ? c.initial : c.extruder;
    bool inside = false, active = true, done = false, failed = false;
    for (size_t k = 0; k < t.size() && ! failed; k++)
    {
        const Token& x = TOKENS[t[k]];
        const int ctx = x.extruder == 99 ? -1 : x.extruder == 98 ? (base == 0 ? 1 : base == 1 ? 0 : 1) : x.extruder >= 0 ? x.extruder : base;
        if (x.kind == TEXT)
        {
            std::string s = x.text;
            if (active)
            {
                // a line end right behind a directive is swallowed with it; no text token starts with one
                out += s;
            }
            continue;
        }
        if (x.kind == VALUE)
        {
            if (! active)
                continue;
            const auto v = value(x.what, ctx, c.initial);
            if (! v)
                failed = true;
            else
                out += *v + (x.eol ? "\n" : "");
            continue;
        }
        if ((x.kind == IF) == inside)
        {
            failed = true;
            continue;
        }
        const auto condition = [&]() -> int // 1, 0, or -1 for an error
        {
            const std::string w = x.what;
            if (w == "true" || w == "number")
                return 1;
            if (w == "false")
                return 0;
            if (w == "hot")
                return ctx == 1 ? 1 : ctx == 0 ? 0 : -1;
            return -1;
        };
        if (x.kind == IF || (x.kind == ELIF && ! done))
        {
            inside = true;
            const int r = condition();
            failed = r < 0;
            active = done = r > 0;
        }
        else if (x.kind == ELIF)
            active = false;
        else if (x.kind == ELSE)
        {
            active = ! done;
            done = true;
        }
        else
        {
            inside = false;
            active = true;
            done = false;
        }
    }
    if (failed)
        out = raw;
    if (! out.empty() && out.back() != '\n')
        out += '\n';
    return out;
}
struct World
{
    std::shared_ptr<Slice> slice = std::make_shared<Slice>(0);
    GcodeTemplateResolver r[2];
    World()
    {
        Application::getInstance().current_slice_ = slice;
        Scene& s = slice->scene;
        s.settings.add("bed", "50.0");
        s.settings.add("name", "abc");
        s.settings.add("other", "1");
        s.settings.add("local", "3"); // shadowed by the extra settings of a template
        s.extruders.reserve(2);
        s.extruders.emplace_back(0, &s.settings);
        s.extruders.emplace_back(1, &s.settings);
        s.extruders[0].settings_.add("temp", "190.5");
        s.extruders[1].settings_.add("temp", "210.0");
        s.extruders[0].settings_.add("other", "1");
        s.extruders[1].settings_.add("other", "0");
        s.extruders[1].settings_.add("name", "second one");
        for (size_t i = 0; i < 2; i++)
            r[i].prepareForResolving(i, { { "bed", CuraFormulaeEngine::eval::Value(99) } }); // shadowed by the setting
    }
};
void explore()
{
    spdlog::set_level(spdlog::level::off);
    const bool T = vh::thorough();
    static World w;
    const std::vector<Context> contexts = { { -1, 0 }, { -2, 0 }, { 0, 0 }, { 1, 0 }, { -2, 1 } };
    const std::unordered_map<std::string, CuraFormulaeEngine::eval::Value> extra = { { "local", CuraFormulaeEngine::eval::Value(17) } };
    const int n = TOKENS.size();
    const auto test = [&](const std::vector<int>& t, const Context& c)
    {
        std::string in;
        for (int i : t)
            in += TOKENS[i].text;
        vh::trans();
        const ResolvingExtruderContext ctx = c.extruder == -1 ? ResolvingExtruderContext(DynamicExtruderContext::Global)
                                           : c.extruder == -2 ? ResolvingExtruderContext(DynamicExtruderContext::Initial)
                                                              : ResolvingExtruderContext((size_t)c.extruder);
        const std::string got = w.r[c.initial].resolveGCodeTemplate(in, ctx, extra), want = reference(t, c);
        if (got != want)
        {
            vh::fail("context %d (initial %d): template <<%s>> gives <<%s>> instead of <<%s>>", c.extruder, c.initial, in.c_str(), got.c_str(), want.c_str());
            return false;
        }
        vh::state(vh::hash(got));
        return true;
    };
    if (vh::begin("empty"))
        for (const Context& c : contexts)
            test({}, c);
    // sequences of all tokens, and longer ones of a smaller alphabet
    std::vector<int> all, few;
    for (int i = 0; i < n; i++)
        all.push_back(i);
    for (int i : { 1, 4, 11, 14, 15, 16, 19, 20, 21, 23, 24, 26 })
        few.push_back(i);
    const auto run = [&](const char* what, const std::vector<int>& al, int len, size_t ncontexts)
    {
        const int m = al.size();
        for (size_t ci = 0; ci < ncontexts; ci++)
            for (int a = 0; a < m; a++)
                for (int b = -1; b < m; b++)
                {
                    if (b < 0 && len != 3)
                        continue;
                    if (! vh::begin("%s length %d context %zu from %d %d", what, len, ci, a, b))
                        continue;
                    if (b < 0)
                    {
                        test({ al[a] }, contexts[ci]);
                        continue;
                    }
                    if (len == 3 && ! test({ al[a], al[b] }, contexts[ci]))
                        continue;
                    std::vector<int> t(len);
                    t[0] = al[a];
                    t[1] = al[b];
                    size_t total = 1;
                    for (int d = 2; d < len; d++)
                        total *= m;
                    for (size_t code = 0; code < total; code++)
                    {
                        size_t q = code;
                        for (int d = 2; d < len; d++, q /= m)
                            t[d] = al[q % m];
                        if (! test(t, contexts[ci]))
                            break;
                    }
                }
    };
    run("all", all, 3, contexts.size());
    run("all", all, 4, T ? contexts.size() : 2);
    if (T)
        run("all", all, 5, 1);
    run("few", few, 5, contexts.size());
    run("few", few, 6, T ? contexts.size() : 1);
    if (T)
        run("few", few, 7, 1);
}
} // namespace
int main(int argc, char** argv)
{
    return vh::main_(argc, argv, explore, 4);
}
