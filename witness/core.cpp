// Entry points explored by the scheduling checks: every user supplied part is declared only, so that each of its uses
// shows as a call.  Only the public interface of the library is used.
#include <functional>
#include <typeinfo>
#include <new>
#include <memory>
#include "oqpi/error_handling.hpp"
#include "oqpi/threading.hpp"
#include "oqpi/synchronization.hpp"
#include "oqpi/scheduling.hpp"
#include "oqpi/parallel_algorithms.hpp"
using namespace oqpi;

extern "C" void verif_dyn(void *, const std::type_info *);
extern "C" void verif_shared(void *, const void *);
extern "C" void verif_thread_begin(void *);
extern "C" void verif_thread_end(void *);
template<typename T> T *dyn(T *p) { verif_dyn(p, &typeid(T)); return p; }

template<typename T> struct Q
{
    Q(); ~Q();
    void push(const T &); void push(T &&); bool tryPop(T &); bool empty() const;
    long pad[3];
};
struct Nf { Nf(); ~Nf(); void wait(); bool tryWait(); void notifyOne(); long x; };
struct Th
{
    Th(); Th(Th &&); Th &operator=(Th &&); ~Th();
    template<typename F, typename... A> Th(const thread_attributes &, F &&f, A &&...a)
#ifdef VERIF_OWN_FUNCTION
    { auto *own = new std::decay_t<F>(std::forward<F>(f)); verif_thread_begin(this); std::invoke(*own, std::decay_t<A>(a)...); verif_thread_end(this); }
#else
    { verif_thread_begin(this); std::invoke(std::forward<F>(f), std::forward<A>(a)...); verif_thread_end(this); }
#endif
    bool joinable() const; void join();
    long x;
};
struct WC
{
    WC(worker_base *);
    void onStart(); void onStop(); void onIdle(); void onActive();
    void onPreExecute(const task_handle &); void onPostExecute(const task_handle &);
};
struct TC
{
    TC(task_base *, const std::string &); TC(TC &&); TC &operator=(TC &&);
    void onAddedToGroup(const task_group_sptr &); void onPreExecute(); void onPostExecute();
    long x;
};
struct GC
{
    GC(task_group_base *, const std::string &);
    void onAddedToGroup(const task_group_sptr &); void onTaskAdded(const task_handle &); void onPreExecute(); void onPostExecute();
};
struct Ev { Ev(); Ev(Ev &&); Ev &operator=(Ev &&); ~Ev(); bool wait(); void notify(); long x; };
struct FnI { FnI(FnI &&); FnI &operator=(FnI &&); int operator()(); long x; };
struct FnV { FnV(FnV &&); FnV &operator=(FnV &&); void operator()(); long x; };
struct SchedStub { task_handle add(task_handle); };

using Sched  = scheduler<Q>;
using WCs    = worker_context_container<WC>;
using TCs    = task_context_container<TC>;
using GCs    = group_context_container<GC>;
using Worker = worker<Th, Nf, Sched, WCs>;
using TaskWI = task<task_type::waitable, Ev, TCs, FnI>;
using TaskWV = task<task_type::waitable, Ev, TCs, FnV>;
using TaskFI = task<task_type::fire_and_forget, Ev, TCs, FnI>;
using TaskFV = task<task_type::fire_and_forget, Ev, TCs, FnV>;
using ParW   = parallel_group<SchedStub, task_type::waitable, GCs>;
using ParF   = parallel_group<SchedStub, task_type::fire_and_forget, GCs>;
using SeqW   = sequence_group<SchedStub, task_type::waitable, GCs>;
using SeqF   = sequence_group<SchedStub, task_type::fire_and_forget, GCs>;

#define R extern "C"
// ---- where things are ------------------------------------------------------------------------------------------
R bool p_tryGrab(task_base *t) { return t->tryGrab(); }
R bool p_isGrabbed(task_base *t) { return t->isGrabbed(); }
R bool p_isDone(task_base *t) { return t->isDone(); }
R void p_setDone(task_base *t) { t->setDone(); }
R task_priority p_getPriority(task_base *t) { return t->getPriority(); }
R const void *p_getParent(task_base *t) { return &t->getParentGroup(); }
R task_uid p_getUID(task_base *t) { return t->getUID(); }
R void s_execute(task_base *t) { t->execute(); }
R void s_executeST(task_base *t) { t->executeSingleThreaded(); }
R void s_wait(task_base *t) { t->wait(); }
R void s_activeWait(task_base *t) { t->activeWait(); }
R void s_addTask(task_group_base *g, task_handle *h) { g->addTask(*h); }
R void s_oneTaskDone(task_group_base *g) { g->oneTaskDone(); }
R bool s_empty(task_group_base *g) { return g->empty(); }
R void s_wstart(worker_base *w) { w->start(); }
R void s_wstop(worker_base *w) { w->stop(); }
R void s_wjoin(worker_base *w) { w->join(); }
R void s_wwait(worker_base *w) { w->wait(); }
R bool s_wtryWait(worker_base *w) { return w->tryWait(); }
R void s_wnotify(worker_base *w) { w->notify(); }
R bool p_hvalid(const task_handle *h) { return h->isValid(); }
R bool p_available(const worker_base *w) { return w->isAvailable(); }
R bool p_can(const worker_base *w, task_priority p) { return w->canWorkOnPriority(p); }
R int p_configprio(const worker_config *c) { return int(c->workerPrio); }
R long z_handle() { return sizeof(task_handle); }
R uint64_t z_invalid_uid() { return invalid_task_uid; }
R long z_queue() { return sizeof(Q<task_handle>); }

R int z_prio0() { return int(task_priority::high); }
R int z_prio1() { return int(task_priority::above_normal); }
R int z_prio2() { return int(task_priority::normal); }
R int z_prio3() { return int(task_priority::below_normal); }
R int z_prio4() { return int(task_priority::low); }
R int z_inherit() { return int(task_priority::inherit); }
#define WP(N) R int z_wp_##N() { return int(worker_priority::wprio_##N); }
WP(high) WP(above_normal) WP(normal) WP(below_normal) WP(low) WP(any_normal) WP(normal_or_low) WP(normal_or_high) WP(any)
R bool p_canwork(int w, int t) { return can_work_on_priority(worker_priority(w), task_priority(t)); }

// ---- scheduler and workers -----------------------------------------------------------------------------------------
R void r_worker_run(Sched *s, int id, const worker_config *c) { worker_base *w = new Worker(*s, id, *c); w->start(); }
R void r_worker_stop(Worker *w) { static_cast<worker_base *>(dyn(w))->stop(); }
R void r_worker_join(Worker *w) { static_cast<worker_base *>(dyn(w))->join(); }
R void r_worker_wait(Worker *w) { static_cast<worker_base *>(dyn(w))->wait(); }
R bool r_worker_tryWait(Worker *w) { return static_cast<worker_base *>(dyn(w))->tryWait(); }
R void r_worker_notify(Worker *w) { static_cast<worker_base *>(dyn(w))->notify(); }
R void r_worker_dtor(Worker *w) { w->~Worker(); }
R void r_sched_add(Sched *s, const task_handle *h, task_handle *out) { new (out) task_handle(s->add(*h)); }
R void r_sched_stop(Sched *s) { s->stop(); }
R void r_sched_start(Sched *s) { s->start(); }
R void r_sched_dtor(Sched *s) { s->~Sched(); }
R void r_sched_ctor(void *p) { new (p) Sched(); }
R bool r_sched_idle(const Sched *s) { return s->isIdle(); }
R void r_sched_waitIdle(const Sched *s, long a, long b) { s->waitUntilIdle(std::chrono::microseconds(a), std::chrono::milliseconds(b)); }
R void r_sched_register(Sched *s, const worker_config *c) { s->registerWorker<Th, Nf, WCs>(*c); }
R void r_sched_register2(Sched *s, const worker_config *c) { s->registerWorker<Th, Nf>(*c); }
R void r_sched_signal(Sched *s, worker_base *w) { s->signalAvailableWorker(*w); }

// ---- tasks -----------------------------------------------------------------------------------------------------------
#define TASK(T) \
R void r_##T##_execute(T *t) { static_cast<task_base *>(dyn(t))->execute(); } \
R void r_##T##_executeST(T *t) { static_cast<task_base *>(dyn(t))->executeSingleThreaded(); } \
R void r_##T##_wait(T *t) { static_cast<task_base *>(dyn(t))->wait(); } \
R void r_##T##_activeWait(T *t) { static_cast<task_base *>(dyn(t))->activeWait(); } \
R void r_##T##_setParent(T *t, const task_group_sptr *g) { static_cast<task_base *>(dyn(t))->setParentGroup(*g); } \
R void r_##T##_ctor(void *p, const std::string *n, task_priority q, FN(T) *f) { new (p) T(*n, q, std::move(*f)); }
template<typename T> struct fn; template<task_type Y, typename E, typename C, typename F> struct fn<task<Y, E, C, F>> { using t = F; };
#define FN(T) typename fn<T>::t
TASK(TaskWI) TASK(TaskWV) TASK(TaskFI) TASK(TaskFV)
R int r_TaskWI_getResult(TaskWI *t) { return dyn(t)->getResult(); }
R int r_TaskFI_getResult(TaskFI *t) { return dyn(t)->getResult(); }
R void r_TaskWV_getResult(TaskWV *t) { dyn(t)->getResult(); }
R int r_TaskWI_waitForResult(TaskWI *t) { return dyn(t)->waitForResult(); }
R void r_TaskWV_waitForResult(TaskWV *t) { dyn(t)->waitForResult(); }
R void r_TaskWI_move(void *p, TaskWI *t) { new (p) TaskWI(std::move(*t)); }
R void r_TaskWI_assign(TaskWI *p, TaskWI *t) { *p = std::move(*t); }
R void r_TaskWV_move(void *p, TaskWV *t) { new (p) TaskWV(std::move(*t)); }
R void r_TaskWV_assign(TaskWV *p, TaskWV *t) { *p = std::move(*t); }

// ---- groups ------------------------------------------------------------------------------------------------------------
#define GROUP(T) \
R void r_##T##_execute(T *t) { static_cast<task_base *>(dyn(t))->execute(); } \
R void r_##T##_executeST(T *t) { static_cast<task_base *>(dyn(t))->executeSingleThreaded(); } \
R void r_##T##_wait(T *t) { static_cast<task_base *>(dyn(t))->wait(); } \
R void r_##T##_activeWait(T *t) { static_cast<task_base *>(dyn(t))->activeWait(); } \
R void r_##T##_setParent(T *t, const task_group_sptr *g) { static_cast<task_base *>(dyn(t))->setParentGroup(*g); } \
R void r_##T##_addTask(T *t, const task_handle *h) { verif_shared(static_cast<std::enable_shared_from_this<task_group_base> *>(dyn(t)), static_cast<task_group_base *>(t)); static_cast<task_group_base *>(t)->addTask(*h); } \
R void r_##T##_oneTaskDone(T *t) { static_cast<task_group_base *>(dyn(t))->oneTaskDone(); } \
R bool r_##T##_empty(T *t) { return static_cast<task_group_base *>(dyn(t))->empty(); }
GROUP(ParW) GROUP(ParF) GROUP(SeqW) GROUP(SeqF)
R void r_ParW_ctor(void *p, SchedStub *s, const std::string *n, task_priority q, int c, int m) { new (p) ParW(*s, *n, q, c, m); }
R void r_ParF_ctor(void *p, SchedStub *s, const std::string *n, task_priority q, int c, int m) { new (p) ParF(*s, *n, q, c, m); }
R void r_SeqW_ctor(void *p, SchedStub *s, const std::string *n, task_priority q) { new (p) SeqW(*s, *n, q); }
R void r_SeqF_ctor(void *p, SchedStub *s, const std::string *n, task_priority q) { new (p) SeqF(*s, *n, q); }

// ---- handles --------------------------------------------------------------------------------------------------------------
R void r_handle_execute(task_handle *h) { h->execute(); }
R void r_handle_executeST(task_handle *h) { h->executeSingleThreaded(); }
R void r_handle_wait(const task_handle *h) { h->wait(); }
R void r_handle_activeWait(task_handle *h) { h->activeWait(); }
R bool r_handle_isDone(const task_handle *h) { return h->isDone(); }
R bool r_handle_tryGrab(task_handle *h) { return h->tryGrab(); }
R bool r_handle_isGrabbed(const task_handle *h) { return h->isGrabbed(); }
R task_priority r_handle_getPriority(const task_handle *h) { return h->getPriority(); }
R void r_handle_setParent(task_handle *h, const task_group_sptr *g) { h->setParentGroup(*g); }
R const void *r_handle_getParent(const task_handle *h) { return &h->getParentGroup(); }
R uint64_t r_handle_getUID(const task_handle *h) { return h->getUID(); }
R bool r_handle_isValid(const task_handle *h) { return h->isValid(); }
R void r_handle_reset(task_handle *h) { h->reset(); }
R void r_handle_ctor0(void *p) { new (p) task_handle(); }
R void r_handle_ctor1(void *p, const task_sptr *t) { new (p) task_handle(*t); }
R void r_handle_ctor2(void *p, const std::shared_ptr<TaskWI> *t) { new (p) task_handle(*t); }
R void r_handle_ctor3(void *p, const task_group_sptr *t) { new (p) task_handle(*t); }
R void r_handle_copy(void *p, const task_handle *h) { new (p) task_handle(*h); }
R void r_handle_move(void *p, task_handle *h) { new (p) task_handle(std::move(*h)); }
R void r_handle_assign(task_handle *p, const task_handle *h) { *p = *h; }
R void r_handle_massign(task_handle *p, task_handle *h) { *p = std::move(*h); }
