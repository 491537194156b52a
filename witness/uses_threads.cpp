// Every public operation of threads, with and without a user supplied layer.
#define OQPI_USE_DEFAULT
#include "oqpi/threading.hpp"
#include <functional>
#include <memory>

template<typename B> struct thread_layer : B
{
    thread_layer() = default;
    thread_layer(thread_layer &&o) : B(std::move(o)) {}
    thread_layer &operator=(thread_layer &&o) { B::operator=(std::move(o)); return *this; }
    void join() { B::join(); }
};
struct member { int f(int) { return 0; } int operator()() { return 1; } };
struct moved { moved(int) {} moved(moved &&) = default; moved(const moved &) = delete; void operator()(std::unique_ptr<int>) {} };
void plain(int, const std::string &, double &) {}
int returns() { return 3; }

template<typename T> void use(const std::string &name, const oqpi::thread_attributes &attributes)
{
    T a;
    T b(name, [] {}); T c(attributes, [](int, int) { return 2; }, 1, 2L);
    double d = 0; member m;
    T e(name, plain, 1, "text", std::ref(d)), f(attributes, &plain, 1, std::string("text"), std::ref(d)), g(name, returns), h("literal", std::function<void()>([] {}));
    T i(name, &member::f, &m, 1), j(name, &member::f, m, 1), k(name, m), l(name, moved(1), std::make_unique<int>(2)), n(attributes, [p = std::make_unique<int>(1)]() mutable { p.reset(); });
    T o(oqpi::thread_attributes("name"), m), p(oqpi::thread_attributes("name", 1u << 20, oqpi::core_affinity::core3, oqpi::thread_priority::time_critical), std::move(m));
    T q(std::move(b)); a = std::move(q); a = T(); a = T(name, [] {});
    const T &ca = a;
    typename T::id id = ca.getId(); (void)(id == c.getId()); typename T::native_handle_type handle = ca.getNativeHandle(); (void)handle;
    if (ca.joinable()) a.join(); else a.detach();
    a.terminate(); a.cancelSynchronousIO();
    a.setCoreAffinityMask(oqpi::core_affinity(oqpi::core_affinity::core0 | oqpi::core_affinity::core7)); a.setCoreAffinityMask(oqpi::core_affinity::all_cores); a.setCoreAffinity(3);
    oqpi::core_affinity mask = ca.getCoreAffinityMask(); (void)mask;
    a.setPriority(oqpi::thread_priority::lowest); oqpi::thread_priority prio = ca.getPriority(); (void)prio;
    unsigned n1 = T::hardware_concurrency(); (void)n1;
    static_assert(std::is_nothrow_destructible<T>::value, ""); static_assert(!std::is_copy_constructible<T>::value, "");
}
void use_all(const std::string &n, const oqpi::thread_attributes &a)
{
    use<oqpi::thread>(n, a); use<oqpi::thread_interface<>>(n, a); use<oqpi::thread_interface<thread_layer>>(n, a);
    static_assert(oqpi::thread_interface<>::is_lean && !oqpi::thread_interface<thread_layer>::is_lean, "");
    auto mover = [](oqpi::thread t) { return t; };
    oqpi::thread t = mover(oqpi::thread(n, [] {})); t.join();
}
void use_this_thread()
{
    namespace tt = oqpi::this_thread;
    using namespace std::chrono;
    tt::set_name("name"); uint32_t core = tt::get_current_core(); (void)core; tt::yield(); static_assert(noexcept(tt::yield()), "");
    tt::set_priority(oqpi::thread_priority::below_normal); tt::set_affinity_mask(oqpi::core_affinity::core1); tt::set_affinity(2); auto id = tt::get_id(); (void)(id == tt::get_id());
    tt::sleep_for(milliseconds(1)); tt::sleep_for(nanoseconds(1)); tt::sleep_for(duration<double>(0.1)); tt::sleep_for(hours(0));
    tt::sleep_until(system_clock::now()); tt::sleep_until(steady_clock::now() + seconds(1)); tt::sleep_until(time_point<system_clock, seconds>(seconds(1)));
}
void use_attributes()
{
    oqpi::thread_attributes a("a"), b("b", 1), c("c", 1, oqpi::core_affinity::core5), d(std::string("d"), 0, oqpi::core_affinity::all_cores, oqpi::thread_priority::highest);
    a = b; b = std::move(c); d.name_ += "x"; d.stackSize_ = 3; d.coreAffinityMask_ = oqpi::core_affinity::core6; d.priority_ = oqpi::thread_priority::above_normal;
}
