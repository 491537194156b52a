// Force-included before a witness: the library's own error handling, with the check macros replaced by marked functions, the same
// whether checks are enabled or not. Each condition and each message argument list becomes the body of a function of its own.
#pragma once
#include "oqpi/error_handling.hpp"
template<typename F> bool verif_cond(const char *file, int line, const char *text, const F &f) { return f(); }
template<typename F> void verif_args(const char *file, int line, const char *text, const F &f) { f(); }
template<typename F> bool verif_both(const char *file, int line, const char *text, const F &f) { return f(); }
template<typename... A> void verif_sink(const A &...);
#undef oqpi_verify
#undef oqpi_verifyf
#undef oqpi_check
#undef oqpi_checkf
#undef oqpi_ensure
#undef oqpi_ensuref
#undef oqpi_failed
#undef oqpi_failedf
#define VERIF_COND(K, COND) verif_##K(__FILE__, __LINE__, #COND, [&]() -> bool { return static_cast<bool>(COND); })
#define VERIF_ARGS(COND, ...) verif_args(__FILE__, __LINE__, #COND, [&] { verif_sink(__VA_ARGS__); })
#define oqpi_verify(COND) { VERIF_COND(both, COND); }
#define oqpi_verifyf(COND, ...) { (VERIF_COND(both, COND) ? true : (VERIF_ARGS(COND, __VA_ARGS__), false)); }
#define oqpi_check(COND) { VERIF_COND(cond, COND); }
#define oqpi_checkf(COND, ...) { (VERIF_COND(cond, COND) ? true : (VERIF_ARGS(COND, __VA_ARGS__), false)); }
#define oqpi_ensure(COND) VERIF_COND(cond, COND)
#define oqpi_ensuref(COND, ...) (VERIF_COND(cond, COND) ? true : (VERIF_ARGS(COND, __VA_ARGS__), false))
#define oqpi_failed(COND) (!VERIF_COND(cond, COND))
#define oqpi_failedf(COND, ...) (VERIF_COND(cond, COND) ? false : (VERIF_ARGS(COND, __VA_ARGS__), true))
