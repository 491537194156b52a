// Entry points of the checks of events, mutexes and semaphores.
#include <algorithm>
#include <chrono>
#include <string>
#include <limits.h>
#include "oqpi/error_handling.hpp"
#include "oqpi/synchronization.hpp"
using namespace oqpi;
#define R extern "C"
R void verif_mark();
R void verif_see(int what, bool valid, sem_t *handle);
R void verif_name(const std::string *);
using OPT = sync_object_creation_options;

using AE = auto_reset_event_interface<local_sync_object>;    using GAE = auto_reset_event_interface<global_sync_object>;
using ME = manual_reset_event_interface<local_sync_object>;  using GME = manual_reset_event_interface<global_sync_object>;
using SE = semaphore_interface<local_sync_object>;           using GSE = semaphore_interface<global_sync_object>;
using LMU = mutex_interface<local_sync_object>;              using GMU = mutex_interface<global_sync_object>;

R int z_create() { return int(OPT::create_if_nonexistent); }
R int z_open() { return int(OPT::open_existing); }
R int z_both() { return int(OPT::open_or_create); }

#define HANDLE(T) R sem_t *h_##T(T *e) { return e->getNativeHandle(); }
HANDLE(AE) HANDLE(GAE) HANDLE(ME) HANDLE(GME) HANDLE(SE) HANDLE(GSE) HANDLE(LMU) HANDLE(GMU)

// ---- operations on an existing object ---------------------------------------------------------------------------------
using ns = std::chrono::nanoseconds; using us = std::chrono::microseconds; using ms = std::chrono::milliseconds; using s = std::chrono::seconds; using h = std::chrono::hours;
using ims = std::chrono::duration<int, std::milli>; using third = std::chrono::duration<long, std::ratio<1, 3000>>;
using sys = std::chrono::system_clock; using ste = std::chrono::steady_clock;
#define TIMED(T, F, NAME) \
R bool y_##T##_##NAME##For_ns(T *e, long d) { return e->F##For(ns(d)); } \
R bool y_##T##_##NAME##For_us(T *e, long d) { return e->F##For(us(d)); } \
R bool y_##T##_##NAME##For_ms(T *e, long d) { return e->F##For(ms(d)); } \
R bool y_##T##_##NAME##For_s(T *e, long d) { return e->F##For(s(d)); } \
R bool y_##T##_##NAME##For_h(T *e, long d) { return e->F##For(h(d)); } \
R bool y_##T##_##NAME##For_ims(T *e, int d) { return e->F##For(ims(d)); } \
R bool y_##T##_##NAME##Until_sys(T *e, long t) { return e->F##Until(std::chrono::time_point<sys, ns>(ns(t))); } \
R bool y_##T##_##NAME##Until_sysms(T *e, long t) { return e->F##Until(std::chrono::time_point<sys, ms>(ms(t))); } \
R bool y_##T##_##NAME##Until_ste(T *e, long t) { return e->F##Until(std::chrono::time_point<ste, ns>(ns(t))); }
#define EVENT(T) TIMED(T, wait, wait) \
R bool y_##T##_wait(T *e) { return e->wait(); } \
R void y_##T##_notify(T *e) { e->notify(); }
EVENT(AE) EVENT(GAE) EVENT(ME) EVENT(GME)
R void y_ME_reset(ME *e) { e->reset(); }
R void y_GME_reset(GME *e) { e->reset(); }
#define SEMA(T) TIMED(T, wait, wait) \
R bool y_##T##_wait(T *e) { return e->wait(); } \
R bool y_##T##_tryWait(T *e) { return e->tryWait(); } \
R void y_##T##_notify(T *e, int n) { e->notify(n); } \
R void y_##T##_notifyOne(T *e) { e->notifyOne(); }
SEMA(SE) SEMA(GSE)
#define MUTEX(T) TIMED(T, tryLock, tryLock) \
R bool y_##T##_try_lock_for(T *e, long d) { return e->try_lock_for(ms(d)); } \
R bool y_##T##_try_lock_until(T *e, long t) { return e->try_lock_until(std::chrono::time_point<sys, ns>(ns(t))); } \
R bool y_##T##_lock(T *e) { return e->lock(); } \
R bool y_##T##_tryLock(T *e) { return e->tryLock(); } \
R bool y_##T##_try_lock(T *e) { return e->try_lock(); } \
R void y_##T##_unlock(T *e) { e->unlock(); }
MUTEX(LMU) MUTEX(GMU)

// ---- histories ----------------------------------------------------------------------------------------------------------
template<typename T> inline void see(int what, const T &o) { verif_see(what, o.isValid(), o.getNativeHandle()); }
#define NEW(N, T, PARAMS, ARGS) R void y_new_##N PARAMS { T o ARGS; see(1, o); }
NEW(AE, AE, (), ) NEW(ME, ME, (), ) NEW(LMU, LMU, (), ) NEW(SE, SE, (), ) NEW(SE1, SE, (int i), (i)) NEW(SE2, SE, (int i, int m), (i, m))
NEW(GAE, GAE, (const std::string *n), (*n)) NEW(GAEo, GAE, (const std::string *n, OPT o_), (*n, o_))
NEW(GME, GME, (const std::string *n), (*n)) NEW(GMEo, GME, (const std::string *n, OPT o_), (*n, o_))
NEW(GSE, GSE, (const std::string *n), (*n)) NEW(GSE2, GSE, (const std::string *n, int i, int m), (*n, i, m))
NEW(GSEo, GSE, (const std::string *n, OPT o_), (*n, o_)) NEW(GSEoi, GSE, (const std::string *n, OPT o_, int i), (*n, o_, i)) NEW(GSEoim, GSE, (const std::string *n, OPT o_, int i, int m), (*n, o_, i, m))
NEW(GMU, GMU, (const std::string *n), (*n)) NEW(GMUo, GMU, (const std::string *n, OPT o_), (*n, o_)) NEW(GMUol, GMU, (const std::string *n, OPT o_, bool l), (*n, o_, l))

#define LOCALMOVES(T) \
R void y_move_##T() { T a; see(1, a); { T b(std::move(a)); see(2, a); see(3, b); } see(4, a); } \
R void y_assign_##T() { T a, b; see(1, a); see(2, b); b = std::move(a); see(3, a); see(4, b); } \
R void y_chain_##T() { T a, b, c; see(1, a); see(2, b); see(3, c); b = std::move(a); a = std::move(c); see(4, a); see(5, b); see(6, c); } \
R void y_self_##T() { T a; T &r = a; see(1, a); a = std::move(r); see(2, a); } \
R void y_temp_##T() { T a; see(1, a); a = T(); see(2, a); }
LOCALMOVES(AE) LOCALMOVES(ME) LOCALMOVES(SE) LOCALMOVES(LMU)
#define GLOBALMOVES(T) \
R void y_move_##T(const std::string *n, OPT o) { T a(*n, o); see(1, a); { T b(std::move(a)); see(2, a); see(3, b); verif_name(&b.getName()); } see(4, a); } \
R void y_assign_##T(const std::string *n, OPT o, const std::string *n2, OPT o2) { T a(*n, o), b(*n2, o2); see(1, a); see(2, b); b = std::move(a); see(3, a); see(4, b); verif_name(&b.getName()); } \
R void y_chain_##T(const std::string *n) { T a(*n), b(*n), c(*n); see(1, a); see(2, b); see(3, c); b = std::move(a); a = std::move(c); see(4, a); see(5, b); see(6, c); verif_name(&a.getName()); } \
R void y_self_##T(const std::string *n, OPT o) { T a(*n, o); T &r = a; see(1, a); a = std::move(r); see(2, a); verif_name(&a.getName()); } \
R void y_temp_##T(const std::string *n, OPT o) { T a(*n, o); see(1, a); a = T(*n, o); see(2, a); }
GLOBALMOVES(GAE) GLOBALMOVES(GME) GLOBALMOVES(GSE) GLOBALMOVES(GMU)
#define CLOSES(T, PARAMS, ARGS) \
R void y_close_##T PARAMS { T a ARGS; see(1, a); a.close(); see(2, a); a.close(); see(3, a); } \
R void y_reopen_##T PARAMS { T a ARGS; see(1, a); a.close(); a = T ARGS; see(2, a); } \
R void y_mclose_##T PARAMS { T a ARGS; see(1, a); T b(std::move(a)); a.close(); see(2, b); b.close(); see(3, b); }
CLOSES(AE, (), {}) CLOSES(ME, (), {}) CLOSES(GAE, (const std::string *n), (*n)) CLOSES(GME, (const std::string *n), (*n))

// the maximal count of a semaphore
R void y_all_SE(int i, int m) { SE a(i, m); verif_mark(); a.notifyAll(); }
R void y_all_SEd() { SE a; verif_mark(); a.notifyAll(); }
R void y_all_move_SE(int i, int m) { SE a(i, m); SE b(std::move(a)); verif_mark(); b.notifyAll(); }
R void y_all_assign_SE(int i, int m, int i2, int m2) { SE a(i, m); SE b(i2, m2); b = std::move(a); verif_mark(); b.notifyAll(); }
R void y_all_GSE(const std::string *n, OPT o, int i, int m) { GSE a(*n, o, i, m); verif_mark(); a.notifyAll(); }
R void y_all_assign_GSE(const std::string *n, OPT o, int i, int m, int i2, int m2) { GSE a(*n, o, i, m); GSE b(*n, o, i2, m2); b = std::move(a); verif_mark(); b.notifyAll(); }
