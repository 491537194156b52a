// Entry points of the checks of the partitioners and the parallel loops.
#include <functional>
#include <typeinfo>
#include <new>
#include <memory>
#include <algorithm>
#include "oqpi/error_handling.hpp"
#include "oqpi/threading.hpp"
#include "oqpi/synchronization.hpp"
#include "oqpi/scheduling.hpp"
#include "oqpi/parallel_algorithms.hpp"
#include "oqpi/scheduling_helpers.hpp"
using namespace oqpi;
#define R extern "C"
R void verif_mark();

// ---- partitioners ---------------------------------------------------------------------------------------------------
#define PART(N, T) \
R bool l_##N##_draw(void *m, int f, int l PARAMS_##N, int n, int *a, int *b) { T *p = new (m) T(f, l ARGS_##N, n); verif_mark(); return p->getNextValidRange(*a, *b); } \
R bool l_##N##_drawc(void *m, int c PARAMS_##N, int n, int *a, int *b) { T *p = new (m) T(c ARGS_##N, n); verif_mark(); return p->getNextValidRange(*a, *b); } \
R bool l_##N##_copy(void *m, int f, int l PARAMS_##N, int n, int *a, int *b) { T s(f, l ARGS_##N, n); T *p = new (m) T(s); verif_mark(); return p->getNextValidRange(*a, *b); } \
R bool l_##N##_valid(int f, int l PARAMS_##N, int n) { T p(f, l ARGS_##N, n); return p.isValid(); } \
R int l_##N##_elements(int f, int l PARAMS_##N, int n) { T p(f, l ARGS_##N, n); return p.elementCount(); } \
R int l_##N##_batches(int f, int l PARAMS_##N, int n) { T p(f, l ARGS_##N, n); return p.batchCount(); }
#define PARAMS_A , int g
#define ARGS_A , g
#define PARAMS_S
#define ARGS_S
PART(A, atomic_partitioner)
PART(S, simple_partitioner)

// ---- loops: partitioner, function, scheduler and container are declared only ----------------------------------------
struct Part
{
    Part(const Part &); ~Part();
    int32_t isValid() const; int32_t batchCount() const; int32_t elementCount() const;
    bool getNextValidRange(int32_t &, int32_t &);
    long x;
};
struct Fn1 { Fn1(const Fn1 &); Fn1(Fn1 &&); ~Fn1(); void operator()(int) const; long x; };
struct Fn2 { Fn2(const Fn2 &); Fn2(Fn2 &&); ~Fn2(); void operator()(int, int) const; long x; };
struct El { long x; };
struct FnE { FnE(const FnE &); FnE(FnE &&); ~FnE(); void operator()(El &) const; long x; };
struct FnC { FnC(const FnC &); FnC(FnC &&); ~FnC(); void operator()(const El &) const; long x; };
struct Cont
{
    Cont(const Cont &); ~Cont();
    int size() const; bool empty() const;
    El &operator[](int); const El &operator[](int) const; El &at(int); const El &at(int) const;
    El *begin(); El *end(); const El *begin() const; const El *end() const; El *data(); const El *data() const;
    long x;
};
struct Evt { Evt(); Evt(Evt &&); Evt &operator=(Evt &&); ~Evt(); bool wait(); void notify(); long x; };
struct SchedS { SchedS(); ~SchedS(); task_handle add(task_handle); int workersCount(task_priority) const; int workersTotalCount() const; long x; };
using EG = empty_group_context; using ET = empty_task_context;
using H  = helpers<SchedS, EG, ET, Evt>;

#define GRP(N, Y, F, FT) R void l_grp_##N(SchedS *s, const std::string *n, const Part *p, task_priority q, F *f, task_group_sptr *out) { *out = make_parallel_for_task_group<task_type::Y, Evt, EG, ET>(*s, *n, *p, q, FT(*f)); }
GRP(W1, waitable, const Fn1, ) GRP(W1m, waitable, Fn1, std::move) GRP(W2, waitable, const Fn2, ) GRP(F1, fire_and_forget, const Fn1, ) GRP(F2m, fire_and_forget, Fn2, std::move)
R void l_for_1(SchedS *s, const std::string *n, const Part *p, task_priority q, const Fn1 *f) { parallel_for<Evt, EG, ET>(*s, *n, *p, q, *f); }
R void l_for_2m(SchedS *s, const std::string *n, const Part *p, task_priority q, Fn2 *f) { parallel_for<Evt, EG, ET>(*s, *n, *p, q, std::move(*f)); }
R void l_hfor_part(const std::string *n, const Part *p, task_priority q, const Fn2 *f) { H::parallel_for(*n, *p, q, *f); }
R void l_hfor_partc(const std::string *n, const Part *p, task_priority q, const Fn1 *f) { H::parallel_for<EG, ET>(*n, *p, q, *f); }
R void l_hfor_range(const std::string *n, int a, int b, const Fn1 *f) { H::parallel_for(*n, a, b, *f); }
R void l_hfor_rangec(const std::string *n, int a, int b, const Fn2 *f) { H::parallel_for<EG, ET>(*n, a, b, *f); }
R void l_hfor_count(const std::string *n, int c, const Fn1 *f) { H::parallel_for(*n, c, *f); }
R void l_hfor_countc(const std::string *n, int c, const Fn1 *f) { H::parallel_for<EG, ET>(*n, c, *f); }
R void l_hgrp(const std::string *n, const Part *p, task_priority q, const Fn1 *f, task_group_sptr *out) { *out = H::make_parallel_for_task_group<task_type::waitable>(*n, *p, q, *f); }
R void l_each_part(const std::string *n, Cont *c, const Part *p, task_priority q, const FnE *f) { H::parallel_for_each(*n, *c, *p, q, *f); }
R void l_each_partc(const std::string *n, Cont *c, const Part *p, task_priority q, FnE *f) { H::parallel_for_each<EG, ET>(*n, *c, *p, q, std::move(*f)); }
R void l_each(const std::string *n, Cont *c, const FnE *f) { H::parallel_for_each(*n, *c, *f); }
R void l_each_const(const std::string *n, const Cont *c, const FnC *f) { H::parallel_for_each(*n, *c, *f); }
