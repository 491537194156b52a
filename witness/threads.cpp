// Entry points of the checks of threads.
#include <algorithm>
#include <chrono>
#include <memory>
#include <string>
#include "oqpi/threading.hpp"
using namespace oqpi;
#define R extern "C"
using T = thread_interface<>;
R void verif_see(int what, bool joinable, unsigned long handle);
R void verif_mark();
template<typename X> void see(int what, const X &t) { verif_see(what, t.joinable(), t.getNativeHandle()); }

// a function and arguments whose content is followed
struct Fn { long tag; void operator()(long a, long b); };
struct Fo { std::unique_ptr<int> own; long tag; void operator()(std::unique_ptr<int> p, long b); };
struct Obj { void method(long a); };
void fun(long a, long *p);

R pthread_t h_thread(T *t) { return t->getNativeHandle(); }
R bool x_joinable(T *t) { return t->joinable(); }
R pthread_t x_id(T *t) { return t->getId(); }
R pthread_t x_native(T *t) { return t->getNativeHandle(); }

R thread_priority z_prio(int i) { return thread_priority(i); }
R int z_lowest() { return int(thread_priority::lowest); }
R int z_highest() { return int(thread_priority::time_critical); }
R int z_count() { return int(thread_priority::count); }
R int z_offname(thread_attributes *a) { return int((char *)&a->name_ - (char *)a); }
R int z_offstack(thread_attributes *a) { return int((char *)&a->stackSize_ - (char *)a); }
R int z_offmask(thread_attributes *a) { return int((char *)&a->coreAffinityMask_ - (char *)a); }
R int z_offprio(thread_attributes *a) { return int((char *)&a->priority_ - (char *)a); }

// ---- operations on an existing thread object
R void x_join(T *t) { t->join(); }
R void x_detach(T *t) { t->detach(); }
R void x_terminate(T *t) { t->terminate(); }
R void x_destroy(T *t) { t->~T(); }
R void x_setprio(T *t, thread_priority p) { t->setPriority(p); }
R thread_priority x_getprio(T *t) { return t->getPriority(); }
R void x_setmask(T *t, core_affinity m) { t->setCoreAffinityMask(m); }
R core_affinity x_getmask(T *t) { return t->getCoreAffinityMask(); }
R void x_setcore(T *t, int n) { t->setCoreAffinity(n); }
R thread_priority x_prio_trip(T *t, thread_priority p) { t->setPriority(p); return t->getPriority(); }
R core_affinity x_mask_trip(T *t, core_affinity m) { t->setCoreAffinityMask(m); return t->getCoreAffinityMask(); }
R core_affinity x_core_trip(T *t, int n) { t->setCoreAffinity(n); return t->getCoreAffinityMask(); }
R void x_this_prio(thread_priority p) { this_thread::set_priority(p); }
R void x_this_mask(core_affinity m) { this_thread::set_affinity_mask(m); }
R void x_this_core(unsigned n) { this_thread::set_affinity(n); }
R void x_this_name(const char *n) { this_thread::set_name(n); }

// ---- start
R void x_start_fn(const thread_attributes *a, Fn *f, long x, long y) { T t(*a, *f, x, y); see(1, t); verif_mark(); if (t.joinable()) t.join(); }
R void x_start_fnmove(const thread_attributes *a, Fo *f, std::unique_ptr<int> *p, long y) { T t(*a, std::move(*f), std::move(*p), y); see(1, t); verif_mark(); if (t.joinable()) t.join(); }
R void x_start_lambda(const thread_attributes *a, Fn *f, long x, long y) { T t(*a, [f, x, y] { f->operator()(x, y); }); see(1, t); verif_mark(); if (t.joinable()) t.join(); }
R void x_start_fun(const thread_attributes *a, long x, long *p) { T t(*a, fun, x, p); see(1, t); verif_mark(); if (t.joinable()) t.join(); }
R void x_start_method(const thread_attributes *a, Obj *o, long x) { T t(*a, &Obj::method, o, x); see(1, t); verif_mark(); if (t.joinable()) t.join(); }
R void x_start_name(const std::string *n, Fn *f, long x, long y) { T t(*n, *f, x, y); see(1, t); verif_mark(); if (t.joinable()) t.join(); }

// ---- histories
R void x_hist_none() { T t; see(1, t); }
R void x_hist_join(const thread_attributes *a, Fn *f, long x, long y) { T t(*a, *f, x, y); see(1, t); if (t.joinable()) { t.join(); see(2, t); t.join(); t.detach(); t.terminate(); see(3, t); } }
R void x_hist_detach(const thread_attributes *a, Fn *f, long x, long y) { T t(*a, *f, x, y); if (t.joinable()) { t.detach(); see(2, t); t.detach(); t.join(); t.terminate(); } see(3, t); }
R void x_hist_terminate(const thread_attributes *a, Fn *f, long x, long y) { T t(*a, *f, x, y); if (t.joinable()) { t.terminate(); see(2, t); t.terminate(); t.join(); t.detach(); } see(3, t); }
R void x_hist_drop(const thread_attributes *a, Fn *f, long x, long y) { T t(*a, *f, x, y); see(1, t); }
R void x_hist_move(const thread_attributes *a, Fn *f, long x, long y) { T t(*a, *f, x, y); see(1, t); T u(std::move(t)); see(2, t); see(3, u); if (u.joinable()) u.join(); see(4, t); see(5, u); }
R void x_hist_assign(const thread_attributes *a, Fn *f, long x, long y) { T u; T t(*a, *f, x, y); see(1, t); u = std::move(t); see(2, t); see(3, u); if (u.joinable()) u.join(); see(4, u); }
R void x_hist_over(const thread_attributes *a, Fn *f, long x, long y) { T t(*a, *f, x, y); see(1, t); T u(*a, *f, y, x); see(2, u); u = std::move(t); see(3, t); see(4, u); if (u.joinable()) u.join(); }
R void x_hist_self(const thread_attributes *a, Fn *f, long x, long y) { T t(*a, *f, x, y); see(1, t); T &r = t; t = std::move(r); see(2, t); if (t.joinable()) t.join(); }
R void x_hist_temp(const thread_attributes *a, Fn *f, long x, long y) { T t; t = T(*a, *f, x, y); see(1, t); if (t.joinable()) t.join(); see(2, t); }
R void x_hist_reuse(const thread_attributes *a, Fn *f, long x, long y) { T t(*a, *f, x, y); if (t.joinable()) t.join(); see(1, t); if (!t.joinable()) { t = T(*a, *f, y, x); see(2, t); if (t.joinable()) t.join(); } }

// ---- attributes
R void x_attr(thread_attributes *out, const std::string *n) { new (out) thread_attributes(*n); }
R void x_attr_all(thread_attributes *out, const std::string *n, unsigned st, core_affinity m, thread_priority p) { new (out) thread_attributes(*n, st, m, p); }
R int z_all() { return int(core_affinity::all_cores); }
R int z_normal() { return int(thread_priority::normal); }
R int z_core(int n) { switch (n) { case 0: return core0; case 1: return core1; case 2: return core2; case 3: return core3; case 4: return core4; case 5: return core5; case 6: return core6; case 7: return core7; } return -1; }
