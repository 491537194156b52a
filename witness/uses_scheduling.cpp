// Every public operation of tasks, groups, handles, workers, contexts, queues and of the scheduler, with user supplied
// threads, notifiers, queues, events and contexts that only have what the library documents to need.
#define OQPI_USE_DEFAULT
#include "oqpi/scheduling.hpp"
#include "oqpi/concurrent_queue.hpp"
#include <functional>
using namespace oqpi;

// ---- the least a user has to supply
template<typename T> struct min_queue { void push(const T &); bool tryPop(T &); bool empty() const; };
template<typename T> void min_queue<T>::push(const T &) {}
template<typename T> bool min_queue<T>::tryPop(T &) { return false; }
template<typename T> bool min_queue<T>::empty() const { return true; }
struct min_thread
{
    min_thread() {}
    template<typename F> min_thread(const thread_attributes &, F &&f) { f(); }
    min_thread(min_thread &&) {}
    min_thread &operator=(min_thread &&) { return *this; }
    bool joinable() const { return true; }
    void join() {}
};
struct min_notifier { void wait() {} bool tryWait() { return true; } void notifyOne() {} };
struct min_event { min_event() {} min_event(min_event &&) {} min_event &operator=(min_event &&) { return *this; } void wait() {} void notify() {} };
struct min_scheduler { task_handle add(task_handle h) { return h; } };
struct task_ctx { task_ctx(task_base *, const std::string &) {} void onAddedToGroup(const task_group_sptr &) {} void onPreExecute() {} void onPostExecute() {} };
struct task_ctx2 : task_context_base { task_ctx2(task_base *p, const std::string &n) : task_context_base(p, n) {} };
struct task_ctx3 : task_context_base { task_ctx3(task_base *p, const std::string &n) : task_context_base(p, n) {} void onPreExecute() { (void)owner()->getUID(); } };
struct group_ctx { group_ctx(task_group_base *, const std::string &) {} void onAddedToGroup(const task_group_sptr &) {} void onTaskAdded(const task_handle &) {} void onPreExecute() {} void onPostExecute() {} };
struct group_ctx2 : group_context_base { group_ctx2(task_group_base *p, const std::string &n) : group_context_base(p, n) {} void onPostExecute() { (void)owner()->getPriority(); } };
struct worker_ctx { worker_ctx(worker_base *) {} void onStart() {} void onStop() {} void onIdle() {} void onActive() {} void onPreExecute(const task_handle &) {} void onPostExecute(const task_handle &) {} };
struct worker_ctx2 : worker_context_base { worker_ctx2(worker_base *p) : worker_context_base(p) {} void onStart() { (void)owner()->getName(); } };
using TC0 = empty_task_context; using TC1 = task_context_container<task_ctx>; using TC2 = task_context_container<task_context_base>; using TC3 = task_context_container<task_ctx2, task_ctx3, task_ctx>;
using GC0 = empty_group_context; using GC1 = group_context_container<group_ctx>; using GC2 = group_context_container<group_ctx, group_ctx2>;
using WC0 = empty_worker_context; using WC1 = worker_context_container<worker_ctx>; using WC2 = worker_context_container<worker_ctx, worker_ctx2>;

// ---- tasks
struct functor { int operator()() { return 1; } };
struct only_moved { only_moved() {} only_moved(only_moved &&) {} int operator()() { return 1; } };
inline int free_function(int a, const std::string &) { return a; }
template<typename P> void base_operations(P &t, const task_group_sptr &g)
{
    (void)t.tryGrab(); (void)t.isGrabbed(); (void)t.isDone(); (void)t.getUID(); (void)t.getPriority(); (void)t.getParentGroup(); t.setParentGroup(g);
    t.execute(); t.executeSingleThreaded(); t.wait(); t.activeWait();
}
template<typename P> void unit_operations(P sp, const task_group_sptr &g)
{
    using T = typename P::element_type;
    base_operations(*sp, g); sp->setDone(); sp->notifyParent(); sp->onParentGroupSet();
    const T &c = *sp; auto get = [&c]() -> decltype(auto) { return c.getResult(); }; get(); auto wait = [&sp]() -> decltype(auto) { return sp->waitForResult(); }; wait();
    static_assert(std::is_same<decltype(get()), decltype(wait())>::value, "");
    task_sptr base = sp; task_base &b = *sp; base_operations(b, g);
    task_handle h(sp), h2 = sp, h3(std::move(sp)), h4(base); h = h2; (void)h3;
    static_assert(!std::is_copy_constructible<T>::value && !std::is_copy_assignable<T>::value, "");
}
template<task_type TT, typename EV, typename TC> void tasks(const std::string &n, task_priority p, const task_group_sptr &g)
{
    int x = 0; functor f; const functor cf; (void)cf;
    auto a = make_task<TT, EV, TC>(n, p, [] {}); unit_operations(a, g);
    auto b = make_task<TT, EV, TC>("literal", p, [](int a, double b) { return a + b; }, 1, 2.0); unit_operations(b, g); double rb = b->getResult(); (void)rb;
    auto c = make_task<TT, EV, TC>(n, p, f); unit_operations(c, g);
    auto d = make_task<TT, EV, TC>(n, p, free_function, 1, "text"); unit_operations(d, g);
    auto e = make_task<TT, EV, TC>(n, p, std::function<std::string()>([] { return std::string(); })); unit_operations(e, g); std::string s = e->waitForResult();
    auto h = make_task<TT, EV, TC>(n, p, [q = std::make_unique<int>(1)](std::unique_ptr<int> r) mutable { q = std::move(r); }, std::make_unique<int>(2)); unit_operations(h, g);
    auto i = make_task<TT, EV, TC>(n, p, [](int &v) { ++v; }, std::ref(x)); unit_operations(i, g);
    auto j = make_task<TT, EV, TC>(n, p, only_moved()); unit_operations(j, g);
    auto k = make_task<TT, EV, TC>(n, p, [&x]() mutable { return x; }); unit_operations(k, g);
    // tasks that are not created by make_task: moves
    using T = task<TT, EV, TC, functor>;
    T t1(n, p, functor()), t2(std::move(t1)); t1 = std::move(t2); T &r = t1; t1 = std::move(r); base_operations(t1, g);
    using V = task<TT, EV, TC, std::function<void()>>;
    V v1(n, p, [] {}), v2(std::move(v1)); v1 = std::move(v2); v1.getResult(); v1.waitForResult();
}
void use_tasks(const std::string &n, task_priority p, const task_group_sptr &g)
{
    tasks<task_type::waitable, manual_reset_event, TC0>(n, p, g); tasks<task_type::waitable, manual_reset_event, TC1>(n, p, g); tasks<task_type::waitable, auto_reset_event_interface<>, TC2>(n, p, g);
    tasks<task_type::waitable, min_event, TC3>(n, p, g); tasks<task_type::fire_and_forget, manual_reset_event, TC0>(n, p, g); tasks<task_type::fire_and_forget, min_event, TC3>(n, p, g);
    task_uid u = invalid_task_uid; (void)u;
}

// ---- groups
template<typename G> void group_operations(G sp, task_handle h, const task_group_sptr &g)
{
    base_operations(*sp, g); sp->setDone(); sp->addTask(h); sp->addTask(std::move(h)); (void)sp->empty(); sp->onParentGroupSet();
    task_group_base &b = *sp; b.addTask(h); b.oneTaskDone(); (void)b.empty(); base_operations(b, g); b.notifyParent();
    task_group_sptr gs = sp; task_sptr ts = sp; task_handle h1(sp), h2(gs), h3(ts), h4(std::move(gs)); sp->addTask(h1); h1.setParentGroup(sp); sp->addTask(task_handle(sp));
}
template<task_type TT, typename GC, typename SC> void groups(SC &sc, const std::string &n, task_priority p, task_handle h, const task_group_sptr &g)
{
    group_operations(make_parallel_group<TT, GC>(sc, n, p), h, g); group_operations(make_parallel_group<TT, GC>(sc, n, p, 3), h, g); group_operations(make_parallel_group<TT, GC>(sc, "literal", p, 3, 2), h, g);
    group_operations(make_sequence_group<TT, GC>(sc, n, p), h, g);
    group_operations(make_task_group<parallel_group, TT, GC>(sc, n, p), h, g); group_operations(make_task_group<parallel_group, TT, GC>(sc, n, p, 1, 1), h, g); group_operations(make_task_group<sequence_group, TT, GC>(sc, n, p), h, g);
    parallel_group<SC, TT, GC> on_stack(sc, n, p, 1, 1); sequence_group<SC, TT, GC> on_stack2(sc, n, p); (void)on_stack.empty(); (void)on_stack2.empty();
}
template<template<typename> class Q> void queue_groups(const std::string &n, task_priority p, task_handle h, const task_group_sptr &g)
{
    scheduler<Q> sc;
    groups<task_type::waitable, GC0>(sc, n, p, h, g); groups<task_type::waitable, GC1>(sc, n, p, h, g); groups<task_type::fire_and_forget, GC0>(sc, n, p, h, g); groups<task_type::fire_and_forget, GC2>(sc, n, p, h, g);
}
// a group of the user
template<typename S, task_type T, typename C> struct user_group : task_group<S, T, C>
{
    user_group(S &s, const std::string &n, task_priority p, int) : task_group<S, T, C>(s, n, p) {}
    void addTaskImpl(const task_handle &) override {} void executeImpl() override { this->notifyGroupDone(); } void executeSingleThreadedImpl() override {}
    void oneTaskDone() override {} bool empty() const override { return true; }
};
void use_groups(const std::string &n, task_priority p, task_handle h, const task_group_sptr &g)
{
    queue_groups<concurrent_queue>(n, p, h, g); queue_groups<min_queue>(n, p, h, g);
    min_scheduler ms; groups<task_type::waitable, GC2>(ms, n, p, h, g); groups<task_type::fire_and_forget, GC1>(ms, n, p, h, g);
    group_operations(make_task_group<user_group, task_type::waitable, GC0>(ms, n, p, 1), h, g); group_operations(make_task_group<user_group, task_type::fire_and_forget, GC2>(ms, n, p, 1), h, g);
    task_group_wptr w = g; task_wptr tw = g; (void)w; (void)tw;
}
void use_handles(task_handle a, const task_handle &c, task_sptr t, task_group_sptr g)
{
    task_handle b, d(c), e(std::move(d)), f(t), i(g); b = c; b = std::move(e); b = b; task_handle &r = b; b = std::move(r); b = task_handle(); b = t;
    (void)c.isValid(); (void)c.isDone(); (void)c.isGrabbed(); (void)c.getPriority(); (void)c.getParentGroup(); (void)c.getUID(); c.wait();
    a.reset(); a.execute(); a.executeSingleThreaded(); a.activeWait(); (void)a.tryGrab(); a.setParentGroup(g); a.wait();
    auto later = []() { return task_handle(); }; task_handle l = later(); const task_handle cl = later(); (void)cl.isValid();
}

// ---- schedulers, workers
template<typename SC, typename T, typename N, typename WC> void registering(SC &sc, const worker_config &c)
{
    worker_config array[2] = { c, c }; const worker_config one[1] = { c };
    sc.template registerWorker<T, N, WC>(c); sc.template registerWorkers<T, N, WC>(array); sc.template registerWorkers<T, N, WC>(one);
    sc.template registerWorker<T, N>(c); sc.template registerWorkers<T, N>(array); sc.template registerWorkers<T, N>(one);
    worker<T, N, SC, WC> w(sc, 1, c); worker_base &b = w; const worker_base &cb = w; worker_uptr u; (void)u;
    b.start(); b.stop(); b.join(); b.wait(); (void)b.tryWait(); b.notify(); b.assign(task_handle()); (void)cb.isAvailable(); (void)cb.getPriority(); (void)cb.canWorkOnPriority(task_priority::low); (void)cb.getId(); (void)cb.getConfig().count; std::string n = cb.getName();
    sc.signalAvailableWorker(b);
}
template<template<typename> class Q> void schedulers()
{
    using SC = scheduler<Q>; using namespace std::chrono;
    SC sc; worker_config c; const SC &cs = sc;
    c.threadAttributes = thread_attributes("x"); c.workerPrio = worker_priority::wprio_normal_or_low; c.count = 3;
    registering<SC, thread_interface<>, semaphore_interface<>, WC0>(sc, c); registering<SC, thread_interface<>, semaphore_interface<>, WC2>(sc, c); registering<SC, min_thread, min_notifier, WC1>(sc, c);
    registering<SC, thread, min_notifier, WC0>(sc, c); registering<SC, min_thread, semaphore, WC2>(sc, c);
    sc.start(); task_handle h = sc.add(task_handle()); h = sc.add(h); h = sc.add(make_task<task_type::waitable, manual_reset_event, TC0>("n", task_priority::inherit, [] {})); h = sc.add(task_handle(make_parallel_group<task_type::waitable, GC0>(sc, "g", task_priority::high)));
    cs.waitUntilIdle(milliseconds(1), seconds(1)); cs.waitUntilIdle(seconds(1), nanoseconds(1)); cs.waitUntilIdle(duration<double>(0.1), duration<float>(1)); cs.waitUntilIdle(microseconds(1), hours(1));
    (void)cs.isIdle(); int a = cs.workersTotalCount() + cs.workersCount(task_priority::normal); (void)a; sc.stop();
    (void)can_work_on_priority(worker_priority::wprio_any, task_priority::low);
    static_assert(!std::is_copy_constructible<SC>::value, "");
}
void use_schedulers() { schedulers<concurrent_queue>(); schedulers<min_queue>(); }

// ---- contexts and queues
void use_contexts(task_base *t, task_group_base *g, worker_base *w, const task_group_sptr &gs, const task_handle &h)
{
    task_context_base tb(t, "n"); (void)tb.owner(); tb.onAddedToGroup(gs); tb.onPreExecute(); tb.onPostExecute();
    group_context_base gb(g, "n"); (void)gb.owner(); gb.onAddedToGroup(gs); gb.onTaskAdded(h); gb.onPreExecute(); gb.onPostExecute();
    worker_context_base wb(w); (void)wb.owner(); wb.onStart(); wb.onStop(); wb.onIdle(); wb.onActive(); wb.onPreExecute(h); wb.onPostExecute(h);
    const task_context_base &ct = tb; (void)ct.owner(); const group_context_base &cg = gb; (void)cg.owner(); const worker_context_base &cw = wb; (void)cw.owner();
    TC2 tc(t, "n"); tc.task_onAddedToGroup(gs); tc.task_onPreExecute(); tc.task_onPostExecute(); TC0 te(t, "n"); te.task_onAddedToGroup(gs); te.task_onPreExecute(); te.task_onPostExecute();
    GC2 gc(g, "n"); gc.group_onAddedToGroup(gs); gc.group_onTaskAdded(h); gc.group_onPreExecute(); gc.group_onPostExecute(); GC0 ge(g, "n"); ge.group_onAddedToGroup(gs); ge.group_onTaskAdded(h); ge.group_onPreExecute(); ge.group_onPostExecute();
    WC2 wc(w); wc.worker_onStart(); wc.worker_onStop(); wc.worker_onIdle(); wc.worker_onActive(); wc.worker_onPreExecute(h); wc.worker_onPostExecute(h);
    WC0 we(w); we.worker_onStart(); we.worker_onStop(); we.worker_onIdle(); we.worker_onActive(); we.worker_onPreExecute(h); we.worker_onPostExecute(h);
}
void use_queues()
{
    concurrent_queue<int> a; a.push(1); int v = 0; a.push(v); (void)a.tryPop(v); const concurrent_queue<int> &ca = a; (void)ca.empty();
    concurrent_queue<task_handle> b; task_handle h; b.push(h); b.push(std::move(h)); (void)b.tryPop(h); (void)b.empty();
    concurrent_queue<std::string> c; c.push("x"); std::string s; (void)c.tryPop(s); const std::string cs; c.push(cs);
}
