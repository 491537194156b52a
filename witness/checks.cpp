// What the check macros themselves do.
#include "oqpi/error_handling.hpp"
extern "C" { bool verif_c1(); bool verif_c2(); int verif_arg(); void verif_after(); }
extern "C" {
void k_check() { oqpi_check(verif_c1()); verif_after(); }
void k_checkf() { oqpi_checkf(verif_c1(), "%d", verif_arg()); verif_after(); }
void k_verify() { oqpi_verify(verif_c1()); verif_after(); }
void k_verifyf() { oqpi_verifyf(verif_c1(), "%d", verif_arg()); verif_after(); }
bool k_ensure() { bool r = oqpi_ensure(verif_c1()); verif_after(); return r; }
bool k_ensuref() { bool r = oqpi_ensuref(verif_c1(), "%d", verif_arg()); verif_after(); return r; }
bool k_failed() { bool r = oqpi_failed(verif_c1()); verif_after(); return r; }
bool k_failedf() { bool r = oqpi_failedf(verif_c1(), "%d", verif_arg()); verif_after(); return r; }
// operators around and inside the condition
void k_check_or() { oqpi_check(verif_c1() || verif_c2()); verif_after(); }
void k_checkf_or() { oqpi_checkf(verif_c1() || verif_c2(), "%d", verif_arg()); verif_after(); }
void k_verify_or() { oqpi_verify(verif_c1() || verif_c2()); verif_after(); }
bool k_ensure_or() { bool r = !oqpi_ensure(verif_c1() || verif_c2()); verif_after(); return r; }
bool k_ensuref_or() { bool r = !oqpi_ensuref(verif_c1() || verif_c2(), "%d", verif_arg()); verif_after(); return r; }
bool k_failed_or() { bool r = !oqpi_failed(verif_c1() || verif_c2()); verif_after(); return r; }
bool k_failedf_or() { bool r = !oqpi_failedf(verif_c1() || verif_c2(), "%d", verif_arg()); verif_after(); return r; }
void k_check_ternary() { oqpi_check(verif_c1() ? verif_c2() : true); verif_after(); }
bool k_ensure_ternary() { bool r = !oqpi_ensure(verif_c1() ? verif_c2() : true); verif_after(); return r; }
bool k_failed_ternary() { bool r = !oqpi_failed(verif_c1() ? verif_c2() : true); verif_after(); return r; }
}
#if OQPI_ENABLE_CHECKS
extern "C" int k_report(const char *file, int line, const char *expression, const char *description, int x) { int r = oqpi::assert_function(file, line, expression, description, x); verif_after(); return r; }
#endif
