// Every public operation of the partitioners, the parallel loops and the convenience functions, with default and user
// supplied schedulers, contexts and events.
#define OQPI_USE_DEFAULT
#include "oqpi.hpp"
#include <array>
#include <functional>
using namespace oqpi;

struct task_ctx : task_context_base { task_ctx(task_base *p, const std::string &n) : task_context_base(p, n) {} };
struct group_ctx : group_context_base { group_ctx(task_group_base *p, const std::string &n) : group_context_base(p, n) {} };
struct worker_ctx : worker_context_base { worker_ctx(worker_base *p) : worker_context_base(p) {} };
using TC = task_context_container<task_ctx>; using GC = group_context_container<group_ctx>; using WC = worker_context_container<worker_ctx>;
template<typename T> struct user_queue { void push(const T &) {} bool tryPop(T &) { return false; } bool empty() const { return true; } };
// the least a partitioner has to have
struct user_partitioner { bool isValid() const { return true; } int elementCount() const { return 1; } int batchCount() const { return 1; } bool getNextValidRange(int32_t &, int32_t &) { return false; } };
struct user_container { int v; int size() const { return 1; } int &operator[](int) { return v; } };

struct by_element { void operator()(int) const {} };
struct by_batch { void operator()(int, int) const {} };
inline void free_element(int) {}
template<typename F> void loops(const std::string &n, task_priority p, F &&f)
{
    using H = default_helpers; using S = decltype(H::scheduler_); S &sc = H::scheduler();
    const simple_partitioner sp(0, 10, 3); const atomic_partitioner ap(0, 10, 2, 3); const user_partitioner up{};
    auto partitioners = [&](const auto &part) {
        oqpi::parallel_for<manual_reset_event, empty_group_context, empty_task_context>(sc, n, part, p, f);
        oqpi::parallel_for<manual_reset_event, GC, TC>(sc, n, part, p, f);
        auto g = oqpi::make_parallel_for_task_group<task_type::waitable, manual_reset_event, GC, TC>(sc, n, part, p, f); task_handle h(g);
        auto k = oqpi::make_parallel_for_task_group<task_type::fire_and_forget, manual_reset_event, empty_group_context, empty_task_context>(sc, n, part, p, f); task_handle h2(std::move(k));
    };
    partitioners(sp); partitioners(ap); partitioners(up);
}
template<typename H> void helper_loops(const std::string &n, task_priority p)
{
    const simple_partitioner sp(10, 3); const atomic_partitioner ap(10, 2, 3); const user_partitioner up{};
    std::vector<int> v(3); std::array<double, 4> a{}; int raw = 0; (void)raw; user_container uc{}; const std::vector<int> cv(3);
    by_element e; by_batch b; const by_element ce; auto l = [&v](int i) { v[i] = 1; }; std::function<void(int)> sf = l;
    auto all = [&](auto &&f) {
        H::template parallel_for<GC, TC>(n, sp, p, f); H::template parallel_for<GC, TC>(n, ap, p, f); H::template parallel_for<GC, TC>(n, up, p, f);
        H::template parallel_for<GC, TC>(n, 0, 10, f); H::template parallel_for<GC, TC>(n, 10, f);
        H::parallel_for(n, sp, p, f); H::parallel_for(n, ap, p, f); H::parallel_for(n, up, p, f); H::parallel_for(n, 0, 10, f); H::parallel_for(n, 10, f); H::parallel_for("literal", 10, f);
        task_handle g1(H::template make_parallel_for_task_group<task_type::waitable, GC, TC>(n, sp, p, f)), g2(H::template make_parallel_for_task_group<task_type::fire_and_forget>(n, ap, p, f)), g3(H::template make_parallel_for_task_group<task_type::waitable>(n, up, p, f));
    };
    all(e); all(ce); all(b); all(l); all(sf); all(by_element()); all([](int, int) {});
    auto each = [&](auto &c, auto &&f) {
        H::template parallel_for_each<GC, TC>(n, c, sp, p, f); H::template parallel_for_each<GC, TC>(n, c, ap, p, f);
        H::parallel_for_each(n, c, sp, p, f); H::parallel_for_each(n, c, ap, p, f); H::parallel_for_each(n, c, up, p, f); H::parallel_for_each(n, c, f);
    };
    each(v, [](int &x) { ++x; }); each(a, [](double &x) { x += 1; }); each(uc, [](int &x) { ++x; }); each(cv, [](const int &) {});
}
template<typename H> void helper_tasks(const std::string &n, task_priority p)
{
    auto f = [] { return 1; }; auto g = [](int a, const std::string &) { return a; }; std::unique_ptr<int> u; auto mv = [](std::unique_ptr<int>) {};
    constexpr auto W = task_type::waitable; constexpr auto F = task_type::fire_and_forget;
    task_handle h = H::schedule_task(task_handle()); h = H::schedule_task(h); const task_handle ch; h = H::schedule_task(ch);
    h = H::template schedule_task<W, TC>(n, p, f); h = H::template schedule_task<F, TC>(n, p, g, 1, "t"); h = H::template schedule_task<TC>(n, p, f); h = H::template schedule_task<TC>(n, p, g, 1, "t");
    h = H::schedule_task(n, p, f); h = H::schedule_task(n, p, g, 1, "t"); h = H::template schedule_task<TC>(n, f); h = H::template schedule_task<TC>(n, g, 1, "t"); h = H::schedule_task(n, f); h = H::schedule_task(n, g, 1, "t"); h = H::schedule_task("l", [] {}); h = H::schedule_task(n, mv, std::make_unique<int>(1));
    H::template fire_and_forget_task<TC>(n, p, f); H::fire_and_forget_task(n, p, g, 1, "t"); H::template fire_and_forget_task<TC>(n, f); H::fire_and_forget_task(n, f); H::fire_and_forget_task(n, g, 1, "t");
    auto t1 = H::template make_task<W, TC>(n, p, f); auto t2 = H::template make_task<F, TC>(n, p, g, 1, "t"); auto t3 = H::template make_task<W>(n, p, f); auto t4 = H::template make_task<F>(n, p, g, 1, "t");
    auto t5 = H::template make_task<W, TC>(n, f); auto t6 = H::template make_task<F, TC>(n, f); auto t7 = H::template make_task<W>(n, f); auto t8 = H::template make_task<F>(n, g, 1, "t");
    auto t9 = H::template make_task<TC>(n, p, f); auto t10 = H::make_task(n, p, g, 1, "t"); auto t11 = H::template make_task<TC>(n, f); auto t12 = H::make_task(n, f); auto t13 = H::make_task("l", g, 1, "t"); int r = t10->waitForResult() + t12->waitForResult() + t1->getResult(); (void)r;
    auto i1 = H::template make_task_item<TC>(n, p, f); auto i2 = H::make_task_item(n, p, f); auto i3 = H::template make_task_item<TC>(n, f); auto i4 = H::make_task_item(n, f); auto i5 = H::make_task_item(n, g, 1, "t"); auto i6 = H::make_task_item(n, p, g, 1, "t");
    auto g1 = H::template make_parallel_group<W, GC>(n, p, 1, 1); auto g2 = H::template make_parallel_group<F, GC>(n, p, 1); auto g3 = H::template make_parallel_group<W, GC>(n, p); auto g4 = H::template make_parallel_group<W, GC>(n);
    auto g5 = H::template make_parallel_group<W>(n, p, 1, 1); auto g6 = H::template make_parallel_group<F>(n, p, 1); auto g7 = H::template make_parallel_group<W>(n, p); auto g8 = H::template make_parallel_group<F>("l");
    auto s1 = H::template make_sequence_group<W, GC>(n, p); auto s2 = H::template make_sequence_group<F, GC>(n); auto s3 = H::template make_sequence_group<W>(n, p); auto s4 = H::template make_sequence_group<F>(n);
    g1->addTask(t1); g1->addTask(task_handle(s1)); s1->addTask(i2); s1->addTask(task_handle(g5));
    h = H::schedule_task(task_handle(g1)); h = H::schedule_task(task_handle(std::move(s3))); h = H::schedule_task(task_handle(g2));
    h = H::template sequence_tasks<W, GC>(n, p, t1, i2, task_handle(g3)); h = H::template sequence_tasks<F>(n, p, t2); h = H::template sequence_tasks<W, GC>(n, t3, H::make_task_item(n, f)); h = H::template sequence_tasks<W>(n, t4, t5); h = H::template sequence_tasks<F>("l", task_handle(t4));
    h = H::template fork_tasks<W, GC>(n, p, t1, i2, task_handle(s3)); h = H::template fork_tasks<F>(n, p, t2); h = H::template fork_tasks<W>(n, t4, t5, H::make_task_item(n, f)); h = H::template fork_tasks<F>("l", task_handle(t4));
    H::template start_default_scheduler<WC>(3); H::template start_default_scheduler<WC>(); H::start_default_scheduler(); H::start_default_scheduler(2); H::stop_scheduler();
    auto &sc = H::scheduler(); (void)sc.workersTotalCount(); static_assert(H::default_priority == task_priority::normal, "");
}
void use_all(const std::string &n, task_priority p)
{
    by_element e; const by_element ce; by_batch b; std::function<void(int)> f = e; loops(n, p, e); loops(n, p, ce); loops(n, p, b); loops(n, p, f); loops(n, p, [](int) {}); loops(n, p, [](int, int) {});
    helper_loops<default_helpers>(n, p); helper_loops<helpers<scheduler<user_queue>, GC, TC, manual_reset_event>>(n, p); helper_loops<helpers<scheduler<concurrent_queue>, GC, TC, auto_reset_event>>(n, p);
    helper_tasks<default_helpers>(n, p); helper_tasks<helpers<scheduler<user_queue>, GC, TC, manual_reset_event>>(n, p); helper_tasks<helpers<scheduler<concurrent_queue>, GC, TC>>(n, p);
}
template<typename P> void partitioner(P &p)
{
    const P &c = p; int32_t n = c.batchCount() + c.elementCount() + (c.isValid() ? 1 : 0), a = 0, b = 0; (void)n; (void)p.getNextValidRange(a, b); P q(c); (void)q.getNextValidRange(a, b);
}
void use_partitioners() { simple_partitioner a(3, 2), b(1, 3, 2); partitioner(a); partitioner(b); atomic_partitioner c(3, 1, 2), d(1, 3, 1, 2); partitioner(c); partitioner(d); }
// the example of the documentation
using oqpi_tk = oqpi::default_helpers;
void documented()
{
    oqpi_tk::start_default_scheduler();
    const auto taskHandle = oqpi_tk::schedule_task("UnitTask", [] { std::cout << "Hello! I'm a unit task!" << std::endl; });
    taskHandle.wait();
    const auto sequenceHandle = oqpi_tk::sequence_tasks<oqpi::task_type::waitable>("Sequence", oqpi_tk::make_task_item("Seq1", [] {}), oqpi_tk::make_task_item("Seq2", [] {}), oqpi_tk::make_task_item("Seq3", [] {}));
    sequenceHandle.wait();
    const auto forkHandle = oqpi_tk::fork_tasks<oqpi::task_type::waitable>("Fork", oqpi_tk::make_task_item("Fork1", [] {}), oqpi_tk::make_task_item("Fork2", [] {}), oqpi_tk::make_task_item("Fork3", [] {}));
    forkHandle.wait();
    oqpi_tk::stop_scheduler();
}
