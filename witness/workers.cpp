// Entry points about the workers of a scheduler: what a registered configuration gives, and how their threads are started.
#include <functional>
#include <typeinfo>
#include <new>
#include <memory>
#include "oqpi/error_handling.hpp"
#include "oqpi/threading.hpp"
#include "oqpi/synchronization.hpp"
#include "oqpi/scheduling.hpp"
using namespace oqpi;

extern "C" void verif_thread(void *, const std::string *, const uint32_t *, const core_affinity *, const thread_priority *);
extern "C" void verif_conf(const std::string *, const uint32_t *, const core_affinity *, const thread_priority *, const worker_priority *, const int32_t *);
extern "C" void verif_name(const std::string *);
template<typename T> struct Q
{
    Q(); ~Q();
    void push(const T &); void push(T &&); bool tryPop(T &); bool empty() const;
    long pad[3];
};
struct Nf { Nf(); ~Nf(); void wait(); bool tryWait(); void notifyOne(); long x; };
struct Th
{
    Th(); Th(Th &&); Th &operator=(Th &&); ~Th();
    template<typename F, typename... A> Th(const thread_attributes &a, F &&, A &&...)
    { verif_thread(this, &a.name_, &a.stackSize_, &a.coreAffinityMask_, &a.priority_); }
    bool joinable() const; void join();
    long x;
};
struct WC
{
    WC(worker_base *);
    void onStart(); void onStop(); void onIdle(); void onActive();
    void onPreExecute(const task_handle &); void onPostExecute(const task_handle &);
};
using Sched  = scheduler<Q>;
using WCs    = worker_context_container<WC>;
using Worker = worker<Th, Nf, Sched, WCs>;
using WorkerE = worker<Th, Nf, Sched, empty_worker_context>;
#define R extern "C"

R const void *z_name(const worker_config *c) { return &c->threadAttributes.name_; }
R const void *z_stack(const worker_config *c) { return &c->threadAttributes.stackSize_; }
R const void *z_mask(const worker_config *c) { return &c->threadAttributes.coreAffinityMask_; }
R const void *z_tprio(const worker_config *c) { return &c->threadAttributes.priority_; }
R const void *z_wprio(const worker_config *c) { return &c->workerPrio; }
R const void *z_count(const worker_config *c) { return &c->count; }
R long z_config() { return sizeof(worker_config); }
R const void *z_conf(const worker_base *w) { return &w->getConfig(); }
R int p_total(const Sched *s) { return s->workersTotalCount(); }

static void conf(const worker_base &w)
{
    const worker_config &c = w.getConfig();
    verif_conf(&c.threadAttributes.name_, &c.threadAttributes.stackSize_, &c.threadAttributes.coreAffinityMask_, &c.threadAttributes.priority_, &c.workerPrio, &c.count);
}
R void w_register(Sched *s, const worker_config *c) { s->registerWorker<Th, Nf, WCs>(*c); }
R void w_registerE(Sched *s, const worker_config *c) { s->registerWorker<Th, Nf>(*c); }
R void w_registers(Sched *s, const worker_config (*c)[2]) { s->registerWorkers<Th, Nf, WCs>(*c); }
R void w_registersE(Sched *s, const worker_config (*c)[2]) { s->registerWorkers<Th, Nf>(*c); }
R int w_total(Sched *s, const worker_config *c) { const int before = s->workersTotalCount(); s->registerWorker<Th, Nf, WCs>(*c); return s->workersTotalCount() - before; }
#define COUNT(I, P) R int w_count##I(Sched *s, const worker_config *c) { const int before = s->workersCount(task_priority::P); s->registerWorker<Th, Nf, WCs>(*c); return s->workersCount(task_priority::P) - before; }
COUNT(0, high) COUNT(1, above_normal) COUNT(2, normal) COUNT(3, below_normal) COUNT(4, low)
R int z_prio0() { return int(task_priority::high); }
R int z_prio1() { return int(task_priority::above_normal); }
R int z_prio2() { return int(task_priority::normal); }
R int z_prio3() { return int(task_priority::below_normal); }
R int z_prio4() { return int(task_priority::low); }
#define WP(N) R int z_wp_##N() { return int(worker_priority::wprio_##N); }
WP(high) WP(above_normal) WP(normal) WP(below_normal) WP(low) WP(any_normal) WP(normal_or_low) WP(normal_or_high) WP(any)
// none but the workers registered
R int w_fresh() { Sched s; return s.workersTotalCount(); }
#define FRESH(I, P) R int w_fresh##I() { Sched s; return s.workersCount(task_priority::P); }
FRESH(0, high) FRESH(1, above_normal) FRESH(2, normal) FRESH(3, below_normal) FRESH(4, low)

R void w_start(Sched *s, int id, const worker_config *c) { worker_base *w = new Worker(*s, id, *c); w->start(); }
R void w_startE(Sched *s, int id, const worker_config *c) { worker_base *w = new WorkerE(*s, id, *c); w->start(); }
R void w_conf(Sched *s, int id, const worker_config *c) { worker_base *w = new Worker(*s, id, *c); conf(*w); }
R int w_prio(Sched *s, int id, const worker_config *c) { worker_base *w = new Worker(*s, id, *c); return int(w->getPriority()); }
R void w_name(Sched *s, int id, const worker_config *c) { worker_base *w = new Worker(*s, id, *c); const std::string n = w->getName(); verif_name(&n); }
R bool w_free(Sched *s, int id, const worker_config *c) { worker_base *w = new Worker(*s, id, *c); return w->isAvailable(); }
R int p_id(const worker_base *w) { return w->getId(); }
