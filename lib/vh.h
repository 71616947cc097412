// Exhaustive-enumeration harness support: every case of a bounded space is enumerated in the same order by every worker
// process; workers take case indices from a shared counter, run them on the real code, and report to lib/runner.py.
#pragma once
#include <atomic>
#include <chrono>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace vh
{
constexpr int KEYLEN = 3500;
struct Slot
{
    std::atomic<uint64_t> start_ns; // 0: idle
    std::atomic<uint64_t> done;
    char key[KEYLEN];
};
struct Shared
{
    std::atomic<uint64_t> next;
    std::atomic<uint64_t> stop;
    Slot slot[64];
};
struct Stop
{
};
struct Global
{
    Shared* sh = nullptr;
    int worker = 0;
    bool thorough = false;
    bool only_mode = false;
    bool verbose = false;
    bool continue_mode = false;
    std::string only;
    uint64_t index = 0, mine = 0, chunk_end = 0, chunk = 1;
    uint64_t cases = 0, transitions = 0, validated = 0;
    uint64_t deadline_ns = 0;
    bool capped = false;
    bool in_case = false, case_failed = false;
    std::unordered_set<uint64_t> states, outcomes;
    std::vector<std::string> samples;
    std::vector<std::pair<std::string, std::string>> fails;
    std::map<std::string, uint64_t> notes;
    std::set<std::string> known; // case keys (or prefix*) listed in known_findings
    std::string key, out;
};
inline Global g;
inline uint64_t now_ns()
{
    return std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
inline bool thorough()
{
    return g.thorough;
}
inline uint64_t hash(const void* p, size_t n, uint64_t h = 1469598103934665603ull)
{
    const unsigned char* c = (const unsigned char*)p;
    for (size_t i = 0; i < n; i++)
    {
        h ^= c[i];
        h *= 1099511628211ull;
    }
    return h ^ (h >> 29);
}
inline uint64_t hash(const std::string& s, uint64_t h = 1469598103934665603ull)
{
    return hash(s.data(), s.size(), h);
}
inline uint64_t mix(uint64_t a, uint64_t b)
{
    a ^= b + 0x9e3779b97f4a7c15ull + (a << 6) + (a >> 2);
    a *= 0xff51afd7ed558ccdull;
    return a ^ (a >> 32);
}
// a distinct observed state of the system (canonical hash)
inline void state(uint64_t h)
{
    if (g.states.size() < 4000000)
        g.states.insert(h);
}
inline void trans(uint64_t n = 1)
{
    g.transitions += n;
}
// a distinct observable outcome; used to show the enumeration is not vacuous
inline void outcome(uint64_t h)
{
    if (g.outcomes.size() < 4000000)
        g.outcomes.insert(h);
}
inline void note(const std::string& k, uint64_t n = 1)
{
    g.notes[k] += n;
}
inline void end_case()
{
    if (g.in_case)
    {
        g.in_case = false;
        if (g.sh)
        {
            g.sh->slot[g.worker].done++;
            g.sh->slot[g.worker].start_ns = 0;
        }
    }
}
// Starts the next case of the enumeration. Returns whether this worker has to run it. The key identifies the case for replay.
__attribute__((format(printf, 1, 2))) inline bool begin(const char* fmt, ...)
{
    end_case();
    const uint64_t i = g.index++;
    char buf[KEYLEN];
    if (g.only_mode)
    {
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(buf, sizeof buf, fmt, ap);
        va_end(ap);
        if (g.only != buf)
            return false;
    }
    else
    {
        if (g.sh->stop)
            throw Stop{};
        if (i >= g.chunk_end)
        {
            g.mine = g.sh->next.fetch_add(g.chunk);
            g.chunk_end = g.mine + g.chunk;
            if (g.deadline_ns && now_ns() > g.deadline_ns)
            {
                g.capped = true;
                throw Stop{};
            }
        }
        if (i < g.mine)
            return false;
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(buf, sizeof buf, fmt, ap);
        va_end(ap);
    }
    g.key = buf;
    strcpy(g.sh->slot[g.worker].key, buf);
    g.sh->slot[g.worker].start_ns = now_ns();
    g.in_case = true;
    g.case_failed = false;
    g.cases++;
    g.validated++;
    if (g.samples.size() < 3 || (g.samples.size() < 8 && (g.cases & (g.cases - 1)) == 0))
        g.samples.push_back(g.key);
    if (g.verbose)
        fprintf(stderr, "case %s\n", buf);
    return true;
}
void write_result(const std::string& path, bool finished);
inline bool is_known(const std::string& key)
{
    for (const std::string& k : g.known)
    {
        if (k == key || (! k.empty() && k.back() == '*' && key.compare(0, k.size() - 1, k, 0, k.size() - 1) == 0))
            return true;
    }
    return false;
}
__attribute__((format(printf, 1, 2))) inline void fail(const char* fmt, ...)
{
    char buf[2000];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    if (g.case_failed)
        return; // first message of a case only
    g.case_failed = true;
    if (g.fails.size() < 200)
        g.fails.emplace_back(g.key, buf);
    if (g.only_mode || g.verbose)
        fprintf(stderr, "FAIL %s: %s\n", g.key.c_str(), buf);
    if (! g.only_mode && ! g.continue_mode && ! is_known(g.key))
        g.sh->stop = 1;
}
// For a failed case in whose state this process cannot go on: reports and ends.
[[noreturn]] inline void abandon()
{
    if (! g.out.empty())
    {
        write_result(g.out, false);
    }
    else
        for (auto& f : g.fails)
            fprintf(stderr, "  %s: %s\n", f.first.c_str(), f.second.c_str());
    _exit(1);
}
#define VH_CHECK(cond, ...)                                                                                                                                                       \
    do                                                                                                                                                                            \
    {                                                                                                                                                                             \
        if (! (cond))                                                                                                                                                             \
            vh::fail(__VA_ARGS__);                                                                                                                                                \
    } while (0)

inline std::string jstr(const std::string& s)
{
    std::string o = "\"";
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\')
        {
            o += '\\';
            o += c;
        }
        else if (c < 32 || c > 126)
        {
            char b[8];
            snprintf(b, 8, "\\u%04x", c);
            o += b;
        }
        else
            o += c;
    }
    return o + "\"";
}
inline void write_result(const std::string& path, bool finished)
{
    FILE* f = fopen(path.c_str(), "w");
    fprintf(f, "{\"finished\":%s,\"capped\":%s,\"enumerated\":%llu,\"cases\":%llu,\"transitions\":%llu,\"validated\":%llu,", finished ? "true" : "false", g.capped ? "true" : "false",
            (unsigned long long)g.index, (unsigned long long)g.cases, (unsigned long long)g.transitions, (unsigned long long)g.validated);
    fprintf(f, "\"samples\":[");
    for (size_t i = 0; i < g.samples.size(); i++)
        fprintf(f, "%s%s", i ? "," : "", jstr(g.samples[i]).c_str());
    fprintf(f, "],\"fails\":[");
    for (size_t i = 0; i < g.fails.size(); i++)
        fprintf(f, "%s[%s,%s]", i ? "," : "", jstr(g.fails[i].first).c_str(), jstr(g.fails[i].second).c_str());
    fprintf(f, "],\"notes\":{");
    bool first = true;
    for (auto& [k, v] : g.notes)
    {
        fprintf(f, "%s%s:%llu", first ? "" : ",", jstr(k).c_str(), (unsigned long long)v);
        first = false;
    }
    fprintf(f, "}}\n");
    fclose(f);
    for (int w = 0; w < 2; w++)
    {
        FILE* b = fopen((path + (w ? ".outcomes" : ".states")).c_str(), "wb");
        for (uint64_t h : (w ? g.outcomes : g.states))
            fwrite(&h, 8, 1, b);
        fclose(b);
    }
}
// Entry point of a harness.
inline int main_(int argc, char** argv, const std::function<void()>& explore, uint64_t chunk = 1)
{
    std::string shm, out;
    double budget = 0;
#if ! defined(__SANITIZE_ADDRESS__) && ! defined(__SANITIZE_THREAD__)
    // code that asks for memory without end shall fail here, and not take other processes down
    const rlimit limit{ 2500ull << 20, 2500ull << 20 };
    setrlimit(RLIMIT_AS, &limit);
#endif
    for (int i = 1; i < argc; i++)
    {
        std::string a = argv[i];
        if (a == "--shm")
            shm = argv[++i];
        else if (a == "--out")
            out = argv[++i];
        else if (a == "--worker")
            g.worker = atoi(argv[++i]);
        else if (a == "--budget")
            budget = atof(argv[++i]);
        else if (a == "--thorough")
            g.thorough = true;
        else if (a == "--verbose")
            g.verbose = true;
        else if (a == "--continue")
            g.continue_mode = true;
        else if (a == "--known")
            g.known.insert(argv[++i]);
        else if (a == "--only")
        {
            g.only_mode = true;
            g.only = argv[++i];
        }
    }
    g.chunk = chunk;
    if (shm.empty())
    {
        g.sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    }
    else
    {
        int fd = open(shm.c_str(), O_RDWR);
        g.sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        close(fd);
    }
    g.out = out;
    if (budget > 0)
        g.deadline_ns = now_ns() + (uint64_t)(budget * 1e9);
    bool finished = true;
    try
    {
        explore();
        end_case();
    }
    catch (Stop&)
    {
        end_case();
        finished = false;
    }
    if (! out.empty())
        write_result(out, finished);
    else
    {
        fprintf(stderr, "cases=%llu transitions=%llu states=%zu outcomes=%zu fails=%zu capped=%d\n", (unsigned long long)g.cases, (unsigned long long)g.transitions, g.states.size(), g.outcomes.size(),
                g.fails.size(), g.capped);
        for (auto& [k, v] : g.notes)
            fprintf(stderr, "  note %s = %llu\n", k.c_str(), (unsigned long long)v);
        for (size_t i = 0; i < g.fails.size() && i < 40; i++)
            fprintf(stderr, "  %s: %s\n", g.fails[i].first.c_str(), g.fails[i].second.c_str());
    }
    fflush(stdout);
    fflush(stderr);
    _exit(g.fails.empty() ? 0 : 1);
}
} // namespace vh
