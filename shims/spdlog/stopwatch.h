// Stand-in for spdlog/stopwatch.h of newer spdlog (adds elapsed_ms); time is constant so that runs are repeatable.
#ifndef VERIF_SHIM_STOPWATCH
#define VERIF_SHIM_STOPWATCH
#include <chrono>
#include <spdlog/fmt/fmt.h>
#include <fmt/chrono.h>
namespace spdlog
{
class stopwatch
{
public:
    std::chrono::duration<double> elapsed() const { return std::chrono::duration<double>(0); }
    std::chrono::milliseconds elapsed_ms() const { return std::chrono::milliseconds(0); }
    void reset() {}
};
} // namespace spdlog
template<> struct fmt::formatter<spdlog::stopwatch> : fmt::formatter<double>
{
    template<typename C> auto format(const spdlog::stopwatch&, C& ctx) const { return fmt::formatter<double>::format(0.0, ctx); }
};
#endif
