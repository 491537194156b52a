// Every public operation of the synchronization objects, local and global, with and without a user supplied layer.
#define OQPI_USE_DEFAULT
#include "oqpi/synchronization.hpp"
#include <mutex>
using OPT = oqpi::sync_object_creation_options;

// user supplied layers
template<typename B> struct local_layer : oqpi::local_sync_object<B>
{
    template<typename... A> local_layer(A &&...a) : oqpi::local_sync_object<B>(std::forward<A>(a)...) {}
    bool wait() { return oqpi::local_sync_object<B>::wait(); }
};
template<typename B> struct global_layer : oqpi::global_sync_object<B>
{
    template<typename... A> global_layer(A &&...a) : oqpi::global_sync_object<B>(std::forward<A>(a)...) {}
};

template<typename T> void timed(T &t)
{
    using namespace std::chrono;
    bool b = t.waitFor(hours(1)) && t.waitFor(minutes(1)) && t.waitFor(seconds(1)) && t.waitFor(milliseconds(1)) && t.waitFor(microseconds(1)) && t.waitFor(nanoseconds(1))
          && t.waitFor(duration<double>(0.5)) && t.waitFor(duration<int, std::ratio<1, 60>>(1))
          && t.waitUntil(system_clock::now()) && t.waitUntil(steady_clock::now() + seconds(1)) && t.waitUntil(high_resolution_clock::now())
          && t.waitUntil(time_point<system_clock, seconds>(seconds(1)));
    (void)b;
}
template<typename T> void moves(T &a, T &b) { T c(std::move(a)); b = std::move(c); T &r = b; b = std::move(r); }
template<typename T> void event(T &a, T &b)
{
    const T &c = a; bool v = c.isValid(); (void)v; typename T::native_handle_type h = c.getNativeHandle(); (void)h; static_assert(!T::is_lean, "");
    a.notify(); bool w = a.wait(); (void)w; timed(a); a.close(); moves(a, b);
}
template<typename T> void semaphore(T &a, T &b)
{
    const T &c = a; bool v = c.isValid(); (void)v; typename T::native_handle_type h = c.getNativeHandle(); (void)h;
    a.notify(2); a.notifyOne(); a.notifyAll(); bool w = a.wait() && a.tryWait(); (void)w; timed(a); moves(a, b);
}
template<typename T> void mutex(T &a, T &b)
{
    using namespace std::chrono;
    const T &c = a; bool v = c.isValid(); (void)v; typename T::native_handle_type h = c.getNativeHandle(); (void)h;
    bool w = a.lock() && a.tryLock() && a.try_lock() && a.tryLockFor(seconds(1)) && a.tryLockUntil(steady_clock::now()) && a.tryLockFor(duration<double>(0.5))
          && a.try_lock_for(milliseconds(1)) && a.try_lock_until(system_clock::now()); (void)w;
    a.unlock(); moves(a, b);
    std::lock_guard<T> g(a); std::unique_lock<T> u(a, std::defer_lock); u.lock(); u.unlock(); (void)u.try_lock();
    std::unique_lock<T> t(a, seconds(1)); std::unique_lock<T> t2(a, steady_clock::now()); std::lock(a, b);
}

void use_local()
{
    { oqpi::auto_reset_event a, b; event(a, b); }
    { oqpi::manual_reset_event a, b; event(a, b); a.reset(); }
    { oqpi::semaphore a, b(1), c(1, 2); semaphore(a, b); }
    { oqpi::mutex_interface<> a, b; mutex(a, b); }
    { oqpi::auto_reset_event_interface<local_layer> a, b; event(a, b); }
    { oqpi::manual_reset_event_interface<local_layer> a, b; event(a, b); a.reset(); }
    { oqpi::semaphore_interface<local_layer> a(1), b(1, 2); semaphore(a, b); }
    { oqpi::mutex_interface<local_layer> a, b; mutex(a, b); }
}
void use_global(const std::string &n, OPT o)
{
    { oqpi::global_auto_reset_event a(n), b(n, o); event(a, b); const std::string &s = a.getName(); (void)s; }
    { oqpi::global_manual_reset_event a("literal"), b("literal", OPT::open_existing); event(a, b); a.reset(); const std::string &s = a.getName(); (void)s; }
    { oqpi::global_semaphore a(n), b(n, 1), c(n, 1, 2), d(n, o), e(n, o, 1), f(n, o, 1, 2), g("literal"), h("literal", 1); semaphore(a, b); const std::string &s = a.getName(); (void)s; }
    { oqpi::global_mutex a(n), b(n, o), c(n, o, false), d("literal", OPT::create_if_nonexistent, true); mutex(a, b); const std::string &s = a.getName(); (void)s; }
    { oqpi::auto_reset_event_interface<global_layer> a(n), b(n, o); event(a, b); (void)a.getName(); }
    { oqpi::manual_reset_event_interface<global_layer> a(n), b(n, o); event(a, b); a.reset(); (void)a.getName(); }
    { oqpi::semaphore_interface<global_layer> a(n), b(n, o, 1, 2); semaphore(a, b); (void)a.getName(); }
    { oqpi::mutex_interface<global_layer> a(n), b(n, o, false); mutex(a, b); (void)a.getName(); }
}
