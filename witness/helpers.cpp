// Entry points of the check of the convenience functions: one per overload, for a scheduler, contexts, an event and
// functions that are declared only.  The name of a root says what is to be expected:
// h_<operation>_<W|F: type>_<u|d: given or default context>_<a|n: given or default priority>...
#include <functional>
#include <typeinfo>
#include <new>
#include <memory>
#include "oqpi/error_handling.hpp"
#include "oqpi/threading.hpp"
#include "oqpi/synchronization.hpp"
#include "oqpi/scheduling.hpp"
#include "oqpi/parallel_algorithms.hpp"
#include "oqpi/scheduling_helpers.hpp"
using namespace oqpi;
#define R extern "C"
extern "C" void verif_add(void *, task_handle *);
extern "C" void verif_made(task_base *);
extern "C" void verif_group(task_base *, const void *);
extern "C" void verif_register(void *, const core_affinity *, const std::string *, const thread_priority *, const worker_priority *, const int *, const std::type_info *, const std::type_info *, const std::type_info *);

#define CTXT(N) struct N { N(task_base *, const std::string &); N(N &&); N &operator=(N &&); void onAddedToGroup(const task_group_sptr &); void onPreExecute(); void onPostExecute(); long x; };
#define CTXG(N) struct N { N(task_group_base *, const std::string &); void onAddedToGroup(const task_group_sptr &); void onTaskAdded(const task_handle &); void onPreExecute(); void onPostExecute(); };
CTXT(TD) CTXT(TU) CTXG(GD) CTXG(GU)
struct WU { WU(worker_base *); void onStart(); void onStop(); void onIdle(); void onActive(); void onPreExecute(const task_handle &); void onPostExecute(const task_handle &); };
struct Ev { Ev(); Ev(Ev &&); Ev &operator=(Ev &&); ~Ev(); bool wait(); void notify(); long x; };
struct Ar { Ar(const Ar &); Ar(Ar &&); Ar &operator=(const Ar &); Ar &operator=(Ar &&); ~Ar(); long x; };
struct Fn
{
    Fn(const Fn &); Fn(Fn &&); Fn &operator=(const Fn &); Fn &operator=(Fn &&); ~Fn();
    template<typename... A> int operator()(A &&...);
    long x;
};
struct Fn1 { Fn1(const Fn1 &); Fn1(Fn1 &&); ~Fn1(); void operator()(int) const; long x; };
struct El { long x; };
struct FnE { FnE(const FnE &); FnE(FnE &&); ~FnE(); void operator()(El &) const; long x; };
struct Cont { Cont(const Cont &); ~Cont(); int size() const; El &operator[](int); const El &operator[](int) const; long x; };
struct Part
{
    Part(const Part &); ~Part();
    int32_t isValid() const; int32_t batchCount() const; int32_t elementCount() const;
    bool getNextValidRange(int32_t &, int32_t &);
    long x;
};
// a scheduler that runs what it is given at once, to see which function it calls
struct SchedX
{
    SchedX(); ~SchedX();
    task_handle add(task_handle h) { verif_add(this, &h); h.tryGrab(); h.execute(); return h; }
    int workersCount(task_priority) const;
    long x;
};
// a scheduler that is declared only
struct SchedH
{
    SchedH(); ~SchedH();
    task_handle add(task_handle);
    int workersCount(task_priority) const; int workersTotalCount() const;
    template<typename T, typename S, typename C> void registerWorker(const worker_config &c)
    { verif_register(this, &c.threadAttributes.coreAffinityMask_, &c.threadAttributes.name_, &c.threadAttributes.priority_, &c.workerPrio, &c.count, &typeid(T), &typeid(S), &typeid(C)); }
    void start(); void stop();
    long x;
};
using TDs = task_context_container<TD>; using TUs = task_context_container<TU>;
using GDs = group_context_container<GD>; using GUs = group_context_container<GU>;
using WUs = worker_context_container<WU>;
using H  = helpers<SchedX, GDs, TDs, Ev>;
using HG = helpers<SchedH, GDs, TDs, Ev>;
#define W task_type::waitable
#define F task_type::fire_and_forget

R void *h_sched_of() { return &H::scheduler(); }
R void *h_schedg_of() { return &HG::scheduler(); }
R void *h_schedg_obj() { return &HG::scheduler_; }

// ---- handles --------------------------------------------------------------------------------------------------------
R void h_handle_copy(const task_handle *h, task_handle *out) { new (out) task_handle(HG::schedule_task(*h)); }
R void h_handle_move(task_handle *h, task_handle *out) { new (out) task_handle(HG::schedule_task(std::move(*h))); }

// ---- tasks: h_task_<S: submitted and returned | X: submitted | M: made>_<type>_<context>_<priority> ----------------------
#define P const std::string *n, task_priority q, Fn *f, Ar *a, task_handle *out
#define KEEP(...) new (out) task_handle(__VA_ARGS__)
template<typename T> void made(T p) { task_handle h(p); h.tryGrab(); h.execute(); verif_made(p.get()); }
R void h_task_S_W_u_at_0(P) { KEEP(H::schedule_task<W, TUs>(*n, q, *f)); }
R void h_task_S_W_u_at_1(P) { KEEP(H::schedule_task<W, TUs>(*n, q, std::move(*f), *a)); }
R void h_task_S_F_u_a_0(P) { KEEP(H::schedule_task<F, TUs>(*n, q, *f)); }
R void h_task_S_F_u_a_1(P) { KEEP(H::schedule_task<F, TUs>(*n, q, std::move(*f), *a)); }
R void h_task_S_W_u_a_0(P) { KEEP(H::schedule_task<TUs>(*n, q, *f)); }
R void h_task_S_W_u_a_1(P) { KEEP(H::schedule_task<TUs>(*n, q, std::move(*f), *a)); }
R void h_task_S_W_d_a_0(P) { KEEP(H::schedule_task(*n, q, *f)); }
R void h_task_S_W_d_a_1(P) { KEEP(H::schedule_task(*n, q, std::move(*f), *a)); }
R void h_task_S_W_u_n_0(P) { KEEP(H::schedule_task<TUs>(*n, *f)); }
R void h_task_S_W_u_n_1(P) { KEEP(H::schedule_task<TUs>(*n, std::move(*f), *a)); }
R void h_task_S_W_d_n_0(P) { KEEP(H::schedule_task(*n, *f)); }
R void h_task_S_W_d_n_1(P) { KEEP(H::schedule_task(*n, std::move(*f), *a)); }
R void h_task_X_F_u_a_0(P) { H::fire_and_forget_task<TUs>(*n, q, *f); }
R void h_task_X_F_u_a_1(P) { H::fire_and_forget_task<TUs>(*n, q, std::move(*f), *a); }
R void h_task_M_F_u_a_0(P) { made(H::make_task_item<TUs>(*n, q, *f)); }
R void h_task_M_F_u_a_1(P) { made(H::make_task_item<TUs>(*n, q, std::move(*f), *a)); }
R void h_task_M_W_u_a_0(P) { made(H::make_task<TUs>(*n, q, *f)); }
R void h_task_M_W_u_a_1(P) { made(H::make_task<TUs>(*n, q, std::move(*f), *a)); }
R void h_task_M_W_u_at_0(P) { made(H::make_task<W, TUs>(*n, q, *f)); }
R void h_task_M_W_u_at_1(P) { made(H::make_task<W, TUs>(*n, q, std::move(*f), *a)); }
R void h_task_M_F_u_at_0(P) { made(H::make_task<F, TUs>(*n, q, *f)); }
R void h_task_M_F_u_at_1(P) { made(H::make_task<F, TUs>(*n, q, std::move(*f), *a)); }
R void h_task_X_F_u_n_0(P) { H::fire_and_forget_task<TUs>(*n, *f); }
R void h_task_X_F_u_n_1(P) { H::fire_and_forget_task<TUs>(*n, std::move(*f), *a); }
R void h_task_M_F_u_n_0(P) { made(H::make_task_item<TUs>(*n, *f)); }
R void h_task_M_F_u_n_1(P) { made(H::make_task_item<TUs>(*n, std::move(*f), *a)); }
R void h_task_M_W_u_n_0(P) { made(H::make_task<TUs>(*n, *f)); }
R void h_task_M_W_u_n_1(P) { made(H::make_task<TUs>(*n, std::move(*f), *a)); }
R void h_task_M_W_u_nt_0(P) { made(H::make_task<W, TUs>(*n, *f)); }
R void h_task_M_W_u_nt_1(P) { made(H::make_task<W, TUs>(*n, std::move(*f), *a)); }
R void h_task_M_F_u_nt_0(P) { made(H::make_task<F, TUs>(*n, *f)); }
R void h_task_M_F_u_nt_1(P) { made(H::make_task<F, TUs>(*n, std::move(*f), *a)); }
R void h_task_X_F_d_a_0(P) { H::fire_and_forget_task(*n, q, *f); }
R void h_task_X_F_d_a_1(P) { H::fire_and_forget_task(*n, q, std::move(*f), *a); }
R void h_task_M_F_d_a_0(P) { made(H::make_task_item(*n, q, *f)); }
R void h_task_M_F_d_a_1(P) { made(H::make_task_item(*n, q, std::move(*f), *a)); }
R void h_task_M_W_d_a_0(P) { made(H::make_task(*n, q, *f)); }
R void h_task_M_W_d_a_1(P) { made(H::make_task(*n, q, std::move(*f), *a)); }
R void h_task_M_W_d_at_0(P) { made(H::make_task<W>(*n, q, *f)); }
R void h_task_M_W_d_at_1(P) { made(H::make_task<W>(*n, q, std::move(*f), *a)); }
R void h_task_M_F_d_at_0(P) { made(H::make_task<F>(*n, q, *f)); }
R void h_task_M_F_d_at_1(P) { made(H::make_task<F>(*n, q, std::move(*f), *a)); }
R void h_task_X_F_d_n_0(P) { H::fire_and_forget_task(*n, *f); }
R void h_task_X_F_d_n_1(P) { H::fire_and_forget_task(*n, std::move(*f), *a); }
R void h_task_M_F_d_n_0(P) { made(H::make_task_item(*n, *f)); }
R void h_task_M_F_d_n_1(P) { made(H::make_task_item(*n, std::move(*f), *a)); }
R void h_task_M_W_d_n_0(P) { made(H::make_task(*n, *f)); }
R void h_task_M_W_d_n_1(P) { made(H::make_task(*n, std::move(*f), *a)); }
R void h_task_M_W_d_nt_0(P) { made(H::make_task<W>(*n, *f)); }
R void h_task_M_W_d_nt_1(P) { made(H::make_task<W>(*n, std::move(*f), *a)); }
R void h_task_M_F_d_nt_0(P) { made(H::make_task<F>(*n, *f)); }
R void h_task_M_F_d_nt_1(P) { made(H::make_task<F>(*n, std::move(*f), *a)); }

// ---- groups: the one made and the one the constructor makes for what is asked ---------------------------------------------
R void h_group_P_W_u_4(const std::string *n, task_priority q, int c, int m) { auto e = std::make_shared<parallel_group<SchedH, W, GUs>>(HG::scheduler(), *n, q, c, m); auto g = HG::make_parallel_group<W, GUs>(*n, q, c, m); verif_group(g.get(), static_cast<task_base *>(e.get())); }
R void h_group_P_W_u_3(const std::string *n, task_priority q, int c, int m) { auto e = std::make_shared<parallel_group<SchedH, W, GUs>>(HG::scheduler(), *n, q, c, 0); auto g = HG::make_parallel_group<W, GUs>(*n, q, c); verif_group(g.get(), static_cast<task_base *>(e.get())); }
R void h_group_P_W_u_2(const std::string *n, task_priority q, int c, int m) { auto e = std::make_shared<parallel_group<SchedH, W, GUs>>(HG::scheduler(), *n, q, 0, 0); auto g = HG::make_parallel_group<W, GUs>(*n, q); verif_group(g.get(), static_cast<task_base *>(e.get())); }
R void h_group_P_W_u_1(const std::string *n, task_priority q, int c, int m) { auto e = std::make_shared<parallel_group<SchedH, W, GUs>>(HG::scheduler(), *n, task_priority::normal, 0, 0); auto g = HG::make_parallel_group<W, GUs>(*n); verif_group(g.get(), static_cast<task_base *>(e.get())); }
R void h_group_Q_W_u_2(const std::string *n, task_priority q, int c, int m) { auto e = std::make_shared<sequence_group<SchedH, W, GUs>>(HG::scheduler(), *n, q); auto g = HG::make_sequence_group<W, GUs>(*n, q); verif_group(g.get(), static_cast<task_base *>(e.get())); }
R void h_group_Q_W_u_1(const std::string *n, task_priority q, int c, int m) { auto e = std::make_shared<sequence_group<SchedH, W, GUs>>(HG::scheduler(), *n, task_priority::normal); auto g = HG::make_sequence_group<W, GUs>(*n); verif_group(g.get(), static_cast<task_base *>(e.get())); }
R void h_group_P_W_d_4(const std::string *n, task_priority q, int c, int m) { auto e = std::make_shared<parallel_group<SchedH, W, GDs>>(HG::scheduler(), *n, q, c, m); auto g = HG::make_parallel_group<W>(*n, q, c, m); verif_group(g.get(), static_cast<task_base *>(e.get())); }
R void h_group_P_W_d_3(const std::string *n, task_priority q, int c, int m) { auto e = std::make_shared<parallel_group<SchedH, W, GDs>>(HG::scheduler(), *n, q, c, 0); auto g = HG::make_parallel_group<W>(*n, q, c); verif_group(g.get(), static_cast<task_base *>(e.get())); }
R void h_group_P_W_d_2(const std::string *n, task_priority q, int c, int m) { auto e = std::make_shared<parallel_group<SchedH, W, GDs>>(HG::scheduler(), *n, q, 0, 0); auto g = HG::make_parallel_group<W>(*n, q); verif_group(g.get(), static_cast<task_base *>(e.get())); }
R void h_group_P_W_d_1(const std::string *n, task_priority q, int c, int m) { auto e = std::make_shared<parallel_group<SchedH, W, GDs>>(HG::scheduler(), *n, task_priority::normal, 0, 0); auto g = HG::make_parallel_group<W>(*n); verif_group(g.get(), static_cast<task_base *>(e.get())); }
R void h_group_Q_W_d_2(const std::string *n, task_priority q, int c, int m) { auto e = std::make_shared<sequence_group<SchedH, W, GDs>>(HG::scheduler(), *n, q); auto g = HG::make_sequence_group<W>(*n, q); verif_group(g.get(), static_cast<task_base *>(e.get())); }
R void h_group_Q_W_d_1(const std::string *n, task_priority q, int c, int m) { auto e = std::make_shared<sequence_group<SchedH, W, GDs>>(HG::scheduler(), *n, task_priority::normal); auto g = HG::make_sequence_group<W>(*n); verif_group(g.get(), static_cast<task_base *>(e.get())); }
R void h_group_P_F_u_4(const std::string *n, task_priority q, int c, int m) { auto e = std::make_shared<parallel_group<SchedH, F, GUs>>(HG::scheduler(), *n, q, c, m); auto g = HG::make_parallel_group<F, GUs>(*n, q, c, m); verif_group(g.get(), static_cast<task_base *>(e.get())); }
R void h_group_P_F_u_3(const std::string *n, task_priority q, int c, int m) { auto e = std::make_shared<parallel_group<SchedH, F, GUs>>(HG::scheduler(), *n, q, c, 0); auto g = HG::make_parallel_group<F, GUs>(*n, q, c); verif_group(g.get(), static_cast<task_base *>(e.get())); }
R void h_group_P_F_u_2(const std::string *n, task_priority q, int c, int m) { auto e = std::make_shared<parallel_group<SchedH, F, GUs>>(HG::scheduler(), *n, q, 0, 0); auto g = HG::make_parallel_group<F, GUs>(*n, q); verif_group(g.get(), static_cast<task_base *>(e.get())); }
R void h_group_P_F_u_1(const std::string *n, task_priority q, int c, int m) { auto e = std::make_shared<parallel_group<SchedH, F, GUs>>(HG::scheduler(), *n, task_priority::normal, 0, 0); auto g = HG::make_parallel_group<F, GUs>(*n); verif_group(g.get(), static_cast<task_base *>(e.get())); }
R void h_group_Q_F_u_2(const std::string *n, task_priority q, int c, int m) { auto e = std::make_shared<sequence_group<SchedH, F, GUs>>(HG::scheduler(), *n, q); auto g = HG::make_sequence_group<F, GUs>(*n, q); verif_group(g.get(), static_cast<task_base *>(e.get())); }
R void h_group_Q_F_u_1(const std::string *n, task_priority q, int c, int m) { auto e = std::make_shared<sequence_group<SchedH, F, GUs>>(HG::scheduler(), *n, task_priority::normal); auto g = HG::make_sequence_group<F, GUs>(*n); verif_group(g.get(), static_cast<task_base *>(e.get())); }
R void h_group_P_F_d_4(const std::string *n, task_priority q, int c, int m) { auto e = std::make_shared<parallel_group<SchedH, F, GDs>>(HG::scheduler(), *n, q, c, m); auto g = HG::make_parallel_group<F>(*n, q, c, m); verif_group(g.get(), static_cast<task_base *>(e.get())); }
R void h_group_P_F_d_3(const std::string *n, task_priority q, int c, int m) { auto e = std::make_shared<parallel_group<SchedH, F, GDs>>(HG::scheduler(), *n, q, c, 0); auto g = HG::make_parallel_group<F>(*n, q, c); verif_group(g.get(), static_cast<task_base *>(e.get())); }
R void h_group_P_F_d_2(const std::string *n, task_priority q, int c, int m) { auto e = std::make_shared<parallel_group<SchedH, F, GDs>>(HG::scheduler(), *n, q, 0, 0); auto g = HG::make_parallel_group<F>(*n, q); verif_group(g.get(), static_cast<task_base *>(e.get())); }
R void h_group_P_F_d_1(const std::string *n, task_priority q, int c, int m) { auto e = std::make_shared<parallel_group<SchedH, F, GDs>>(HG::scheduler(), *n, task_priority::normal, 0, 0); auto g = HG::make_parallel_group<F>(*n); verif_group(g.get(), static_cast<task_base *>(e.get())); }
R void h_group_Q_F_d_2(const std::string *n, task_priority q, int c, int m) { auto e = std::make_shared<sequence_group<SchedH, F, GDs>>(HG::scheduler(), *n, q); auto g = HG::make_sequence_group<F>(*n, q); verif_group(g.get(), static_cast<task_base *>(e.get())); }
R void h_group_Q_F_d_1(const std::string *n, task_priority q, int c, int m) { auto e = std::make_shared<sequence_group<SchedH, F, GDs>>(HG::scheduler(), *n, task_priority::normal); auto g = HG::make_sequence_group<F>(*n); verif_group(g.get(), static_cast<task_base *>(e.get())); }

// ---- groups of given tasks ------------------------------------------------------------------------------------------------------
R void h_sequence_W_u_a_1(const std::string *n, task_priority q, task_handle *out, task_handle *h1) { auto e = std::make_shared<sequence_group<SchedH, W, GUs>>(HG::scheduler(), *n, q); verif_group(nullptr, static_cast<task_base *>(e.get())); new (out) task_handle(HG::sequence_tasks<W, GUs>(*n, q, std::move(*h1))); }
R void h_sequence_W_u_a_3(const std::string *n, task_priority q, task_handle *out, task_handle *h1, task_handle *h2, task_handle *h3) { auto e = std::make_shared<sequence_group<SchedH, W, GUs>>(HG::scheduler(), *n, q); verif_group(nullptr, static_cast<task_base *>(e.get())); new (out) task_handle(HG::sequence_tasks<W, GUs>(*n, q, std::move(*h1), std::move(*h2), std::move(*h3))); }
R void h_sequence_W_d_a_1(const std::string *n, task_priority q, task_handle *out, task_handle *h1) { auto e = std::make_shared<sequence_group<SchedH, W, GDs>>(HG::scheduler(), *n, q); verif_group(nullptr, static_cast<task_base *>(e.get())); new (out) task_handle(HG::sequence_tasks<W>(*n, q, std::move(*h1))); }
R void h_sequence_W_d_a_3(const std::string *n, task_priority q, task_handle *out, task_handle *h1, task_handle *h2, task_handle *h3) { auto e = std::make_shared<sequence_group<SchedH, W, GDs>>(HG::scheduler(), *n, q); verif_group(nullptr, static_cast<task_base *>(e.get())); new (out) task_handle(HG::sequence_tasks<W>(*n, q, std::move(*h1), std::move(*h2), std::move(*h3))); }
R void h_sequence_W_u_n_1(const std::string *n, task_priority q, task_handle *out, task_handle *h1) { auto e = std::make_shared<sequence_group<SchedH, W, GUs>>(HG::scheduler(), *n, task_priority::normal); verif_group(nullptr, static_cast<task_base *>(e.get())); new (out) task_handle(HG::sequence_tasks<W, GUs>(*n, std::move(*h1))); }
R void h_sequence_W_u_n_3(const std::string *n, task_priority q, task_handle *out, task_handle *h1, task_handle *h2, task_handle *h3) { auto e = std::make_shared<sequence_group<SchedH, W, GUs>>(HG::scheduler(), *n, task_priority::normal); verif_group(nullptr, static_cast<task_base *>(e.get())); new (out) task_handle(HG::sequence_tasks<W, GUs>(*n, std::move(*h1), std::move(*h2), std::move(*h3))); }
R void h_sequence_W_d_n_1(const std::string *n, task_priority q, task_handle *out, task_handle *h1) { auto e = std::make_shared<sequence_group<SchedH, W, GDs>>(HG::scheduler(), *n, task_priority::normal); verif_group(nullptr, static_cast<task_base *>(e.get())); new (out) task_handle(HG::sequence_tasks<W>(*n, std::move(*h1))); }
R void h_sequence_W_d_n_3(const std::string *n, task_priority q, task_handle *out, task_handle *h1, task_handle *h2, task_handle *h3) { auto e = std::make_shared<sequence_group<SchedH, W, GDs>>(HG::scheduler(), *n, task_priority::normal); verif_group(nullptr, static_cast<task_base *>(e.get())); new (out) task_handle(HG::sequence_tasks<W>(*n, std::move(*h1), std::move(*h2), std::move(*h3))); }
R void h_fork_W_u_a_1(const std::string *n, task_priority q, task_handle *out, task_handle *h1) { auto e = std::make_shared<parallel_group<SchedH, W, GUs>>(HG::scheduler(), *n, q, 0, 0); verif_group(nullptr, static_cast<task_base *>(e.get())); new (out) task_handle(HG::fork_tasks<W, GUs>(*n, q, std::move(*h1))); }
R void h_fork_W_u_a_3(const std::string *n, task_priority q, task_handle *out, task_handle *h1, task_handle *h2, task_handle *h3) { auto e = std::make_shared<parallel_group<SchedH, W, GUs>>(HG::scheduler(), *n, q, 0, 0); verif_group(nullptr, static_cast<task_base *>(e.get())); new (out) task_handle(HG::fork_tasks<W, GUs>(*n, q, std::move(*h1), std::move(*h2), std::move(*h3))); }
R void h_fork_W_d_a_1(const std::string *n, task_priority q, task_handle *out, task_handle *h1) { auto e = std::make_shared<parallel_group<SchedH, W, GDs>>(HG::scheduler(), *n, q, 0, 0); verif_group(nullptr, static_cast<task_base *>(e.get())); new (out) task_handle(HG::fork_tasks<W>(*n, q, std::move(*h1))); }
R void h_fork_W_d_a_3(const std::string *n, task_priority q, task_handle *out, task_handle *h1, task_handle *h2, task_handle *h3) { auto e = std::make_shared<parallel_group<SchedH, W, GDs>>(HG::scheduler(), *n, q, 0, 0); verif_group(nullptr, static_cast<task_base *>(e.get())); new (out) task_handle(HG::fork_tasks<W>(*n, q, std::move(*h1), std::move(*h2), std::move(*h3))); }
R void h_fork_W_d_n_1(const std::string *n, task_priority q, task_handle *out, task_handle *h1) { auto e = std::make_shared<parallel_group<SchedH, W, GDs>>(HG::scheduler(), *n, task_priority::normal, 0, 0); verif_group(nullptr, static_cast<task_base *>(e.get())); new (out) task_handle(HG::fork_tasks<W>(*n, std::move(*h1))); }
R void h_fork_W_d_n_3(const std::string *n, task_priority q, task_handle *out, task_handle *h1, task_handle *h2, task_handle *h3) { auto e = std::make_shared<parallel_group<SchedH, W, GDs>>(HG::scheduler(), *n, task_priority::normal, 0, 0); verif_group(nullptr, static_cast<task_base *>(e.get())); new (out) task_handle(HG::fork_tasks<W>(*n, std::move(*h1), std::move(*h2), std::move(*h3))); }
R void h_sequence_F_u_a_1(const std::string *n, task_priority q, task_handle *out, task_handle *h1) { auto e = std::make_shared<sequence_group<SchedH, F, GUs>>(HG::scheduler(), *n, q); verif_group(nullptr, static_cast<task_base *>(e.get())); new (out) task_handle(HG::sequence_tasks<F, GUs>(*n, q, std::move(*h1))); }
R void h_sequence_F_u_a_3(const std::string *n, task_priority q, task_handle *out, task_handle *h1, task_handle *h2, task_handle *h3) { auto e = std::make_shared<sequence_group<SchedH, F, GUs>>(HG::scheduler(), *n, q); verif_group(nullptr, static_cast<task_base *>(e.get())); new (out) task_handle(HG::sequence_tasks<F, GUs>(*n, q, std::move(*h1), std::move(*h2), std::move(*h3))); }
R void h_sequence_F_d_a_1(const std::string *n, task_priority q, task_handle *out, task_handle *h1) { auto e = std::make_shared<sequence_group<SchedH, F, GDs>>(HG::scheduler(), *n, q); verif_group(nullptr, static_cast<task_base *>(e.get())); new (out) task_handle(HG::sequence_tasks<F>(*n, q, std::move(*h1))); }
R void h_sequence_F_d_a_3(const std::string *n, task_priority q, task_handle *out, task_handle *h1, task_handle *h2, task_handle *h3) { auto e = std::make_shared<sequence_group<SchedH, F, GDs>>(HG::scheduler(), *n, q); verif_group(nullptr, static_cast<task_base *>(e.get())); new (out) task_handle(HG::sequence_tasks<F>(*n, q, std::move(*h1), std::move(*h2), std::move(*h3))); }
R void h_sequence_F_u_n_1(const std::string *n, task_priority q, task_handle *out, task_handle *h1) { auto e = std::make_shared<sequence_group<SchedH, F, GUs>>(HG::scheduler(), *n, task_priority::normal); verif_group(nullptr, static_cast<task_base *>(e.get())); new (out) task_handle(HG::sequence_tasks<F, GUs>(*n, std::move(*h1))); }
R void h_sequence_F_u_n_3(const std::string *n, task_priority q, task_handle *out, task_handle *h1, task_handle *h2, task_handle *h3) { auto e = std::make_shared<sequence_group<SchedH, F, GUs>>(HG::scheduler(), *n, task_priority::normal); verif_group(nullptr, static_cast<task_base *>(e.get())); new (out) task_handle(HG::sequence_tasks<F, GUs>(*n, std::move(*h1), std::move(*h2), std::move(*h3))); }
R void h_sequence_F_d_n_1(const std::string *n, task_priority q, task_handle *out, task_handle *h1) { auto e = std::make_shared<sequence_group<SchedH, F, GDs>>(HG::scheduler(), *n, task_priority::normal); verif_group(nullptr, static_cast<task_base *>(e.get())); new (out) task_handle(HG::sequence_tasks<F>(*n, std::move(*h1))); }
R void h_sequence_F_d_n_3(const std::string *n, task_priority q, task_handle *out, task_handle *h1, task_handle *h2, task_handle *h3) { auto e = std::make_shared<sequence_group<SchedH, F, GDs>>(HG::scheduler(), *n, task_priority::normal); verif_group(nullptr, static_cast<task_base *>(e.get())); new (out) task_handle(HG::sequence_tasks<F>(*n, std::move(*h1), std::move(*h2), std::move(*h3))); }
R void h_fork_F_u_a_1(const std::string *n, task_priority q, task_handle *out, task_handle *h1) { auto e = std::make_shared<parallel_group<SchedH, F, GUs>>(HG::scheduler(), *n, q, 0, 0); verif_group(nullptr, static_cast<task_base *>(e.get())); new (out) task_handle(HG::fork_tasks<F, GUs>(*n, q, std::move(*h1))); }
R void h_fork_F_u_a_3(const std::string *n, task_priority q, task_handle *out, task_handle *h1, task_handle *h2, task_handle *h3) { auto e = std::make_shared<parallel_group<SchedH, F, GUs>>(HG::scheduler(), *n, q, 0, 0); verif_group(nullptr, static_cast<task_base *>(e.get())); new (out) task_handle(HG::fork_tasks<F, GUs>(*n, q, std::move(*h1), std::move(*h2), std::move(*h3))); }
R void h_fork_F_d_a_1(const std::string *n, task_priority q, task_handle *out, task_handle *h1) { auto e = std::make_shared<parallel_group<SchedH, F, GDs>>(HG::scheduler(), *n, q, 0, 0); verif_group(nullptr, static_cast<task_base *>(e.get())); new (out) task_handle(HG::fork_tasks<F>(*n, q, std::move(*h1))); }
R void h_fork_F_d_a_3(const std::string *n, task_priority q, task_handle *out, task_handle *h1, task_handle *h2, task_handle *h3) { auto e = std::make_shared<parallel_group<SchedH, F, GDs>>(HG::scheduler(), *n, q, 0, 0); verif_group(nullptr, static_cast<task_base *>(e.get())); new (out) task_handle(HG::fork_tasks<F>(*n, q, std::move(*h1), std::move(*h2), std::move(*h3))); }
R void h_fork_F_d_n_1(const std::string *n, task_priority q, task_handle *out, task_handle *h1) { auto e = std::make_shared<parallel_group<SchedH, F, GDs>>(HG::scheduler(), *n, task_priority::normal, 0, 0); verif_group(nullptr, static_cast<task_base *>(e.get())); new (out) task_handle(HG::fork_tasks<F>(*n, std::move(*h1))); }
R void h_fork_F_d_n_3(const std::string *n, task_priority q, task_handle *out, task_handle *h1, task_handle *h2, task_handle *h3) { auto e = std::make_shared<parallel_group<SchedH, F, GDs>>(HG::scheduler(), *n, task_priority::normal, 0, 0); verif_group(nullptr, static_cast<task_base *>(e.get())); new (out) task_handle(HG::fork_tasks<F>(*n, std::move(*h1), std::move(*h2), std::move(*h3))); }

// ---- loops: h_loop_<type>_<context>_<priority>_<form> ------------------------------------------------------------------------------
R void h_loop_W_u_a_grp(const std::string *n, task_priority q, const Part *p, const Fn1 *f, int a, int b) { HG::make_parallel_for_task_group<W, GUs, TUs>(*n, *p, q, *f); }
R void h_loop_W_d_a_grp(const std::string *n, task_priority q, const Part *p, const Fn1 *f, int a, int b) { HG::make_parallel_for_task_group<W>(*n, *p, q, *f); }
R void h_loop_F_u_a_grp(const std::string *n, task_priority q, const Part *p, const Fn1 *f, int a, int b) { HG::make_parallel_for_task_group<F, GUs, TUs>(*n, *p, q, *f); }
R void h_loop_F_d_a_grp(const std::string *n, task_priority q, const Part *p, const Fn1 *f, int a, int b) { HG::make_parallel_for_task_group<F>(*n, *p, q, *f); }
R void h_loop_W_u_a_part(const std::string *n, task_priority q, const Part *p, const Fn1 *f, int a, int b) { HG::parallel_for<GUs, TUs>(*n, *p, q, *f); }
R void h_loop_W_u_n_range(const std::string *n, task_priority q, const Part *p, const Fn1 *f, int a, int b) { HG::parallel_for<GUs, TUs>(*n, a, b, *f); }
R void h_loop_W_u_n_count(const std::string *n, task_priority q, const Part *p, const Fn1 *f, int a, int b) { HG::parallel_for<GUs, TUs>(*n, b, *f); }
R void h_loop_W_u_a_each(const std::string *n, task_priority q, const Part *p, const FnE *f, Cont *c) { HG::parallel_for_each<GUs, TUs>(*n, *c, *p, q, *f); }
R void h_loop_W_d_a_part(const std::string *n, task_priority q, const Part *p, const Fn1 *f, int a, int b) { HG::parallel_for(*n, *p, q, *f); }
R void h_loop_W_d_n_range(const std::string *n, task_priority q, const Part *p, const Fn1 *f, int a, int b) { HG::parallel_for(*n, a, b, *f); }
R void h_loop_W_d_n_count(const std::string *n, task_priority q, const Part *p, const Fn1 *f, int a, int b) { HG::parallel_for(*n, b, *f); }
R void h_loop_W_d_a_each(const std::string *n, task_priority q, const Part *p, const FnE *f, Cont *c) { HG::parallel_for_each(*n, *c, *p, q, *f); }
R void h_loop_W_d_n_eachd(const std::string *n, task_priority q, const Part *p, const FnE *f, Cont *c) { HG::parallel_for_each(*n, *c, *f); }

// ---- the scheduler --------------------------------------------------------------------------------------------------------------
extern "C" void verif_count(int);
R const void *z_thread() { return &typeid(thread_interface<>); }
R const void *z_sema() { return &typeid(semaphore_interface<>); }
R const void *z_noctx() { return &typeid(empty_worker_context); }
R const void *z_ctx() { return &typeid(WUs); }
R int z_allcores() { return int(core_affinity::all_cores); }
R int z_highest() { return int(thread_priority::highest); }
R int z_any() { return int(worker_priority::wprio_any); }
R int z_normal() { return int(task_priority::normal); }
R task_priority p_getPriority(task_base *t) { return t->getPriority(); }
R bool p_hvalid(const task_handle *h) { return h->isValid(); }
R void h_start_count(int c) { verif_count(c); HG::start_default_scheduler(c); }
R void h_start_default() { verif_count(HG::default_thread::hardware_concurrency()); HG::start_default_scheduler(); }
R void h_start_context(int c) { verif_count(c); HG::start_default_scheduler<WUs>(c); }
R void h_start_contextd() { verif_count(HG::default_thread::hardware_concurrency()); HG::start_default_scheduler<WUs>(); }
R void h_stop() { HG::stop_scheduler(); }
R int z_W() { return int(W); }
R int z_F() { return int(F); }
