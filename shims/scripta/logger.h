// Stand-in for Ultimaker's scripta logging library (not installable here): logging is dropped.
#ifndef VERIF_SHIM_SCRIPTA
#define VERIF_SHIM_SCRIPTA
namespace scripta
{
template<typename F> struct CellVDI { const char* name; F f; };
template<typename F> CellVDI(const char*, F) -> CellVDI<F>;
template<typename F> struct PointVDI { const char* name; F f; };
template<typename F> PointVDI(const char*, F) -> PointVDI<F>;
template<typename... A> inline void log(A&&...) {}
template<typename... A> inline void setAll(A&&...) {}
} // namespace scripta
#endif
