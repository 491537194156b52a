// Creation of tasks from a callable and its arguments.
#include <functional>
#include <typeinfo>
#include <new>
#include <memory>
#include "oqpi/error_handling.hpp"
#include "oqpi/threading.hpp"
#include "oqpi/synchronization.hpp"
#include "oqpi/scheduling.hpp"
using namespace oqpi;

struct TC
{
    TC(task_base *, const std::string &); TC(TC &&); TC &operator=(TC &&);
    void onAddedToGroup(const task_group_sptr &); void onPreExecute(); void onPostExecute();
    long x;
};
struct Ev { Ev(); Ev(Ev &&); Ev &operator=(Ev &&); ~Ev(); bool wait(); void notify(); long x; };
struct Ar { Ar(const Ar &); Ar(Ar &&); Ar &operator=(const Ar &); Ar &operator=(Ar &&); ~Ar(); long x; };
struct Fn
{
    Fn(const Fn &); Fn(Fn &&); Fn &operator=(const Fn &); Fn &operator=(Fn &&); ~Fn();
    template<typename... A> int operator()(A &&...);
    long x;
};
struct Fv
{
    Fv(const Fv &); Fv(Fv &&); Fv &operator=(const Fv &); Fv &operator=(Fv &&); ~Fv();
    template<typename... A> void operator()(A &&...);
    long x;
};
struct Rs { Rs(); Rs(const Rs &); Rs(Rs &&); Rs &operator=(const Rs &); Rs &operator=(Rs &&); ~Rs(); long x; };
struct Fo
{
    Fo(const Fo &); Fo(Fo &&); Fo &operator=(const Fo &); Fo &operator=(Fo &&); ~Fo();
    template<typename... A> Rs operator()(A &&...);
    long x;
};
using TCs = task_context_container<TC>;
#define R extern "C"
#define MK(Y) task_type::Y, Ev, TCs
template<typename P> int run(const P &p) { static_cast<task_base *>(p.get())->tryGrab(); static_cast<task_base *>(p.get())->execute(); p->getResult(); return p->getResult(); }
template<typename P> void runv(const P &p) { static_cast<task_base *>(p.get())->tryGrab(); static_cast<task_base *>(p.get())->execute(); p->getResult(); }
// the expected order of the arguments is that of the parameters
R int k_move(const std::string *n, int q, Fn *f, Ar *a, Ar *b, Ar *c) { return run(make_task<MK(waitable)>(*n, (task_priority)q, std::move(*f), std::move(*a), std::move(*b), std::move(*c))); }
R int k_copy(const std::string *n, int q, Fn *f, Ar *a, Ar *b, Ar *c) { return run(make_task<MK(waitable)>(*n, (task_priority)q, *f, *a, *b, *c)); }
R int k_mixed(const std::string *n, int q, Fn *f, Ar *a, Ar *b) { return run(make_task<MK(fire_and_forget)>(*n, (task_priority)q, *f, std::move(*a), *b)); }
R int k_none(const std::string *n, int q, Fn *f) { return run(make_task<MK(fire_and_forget)>(*n, (task_priority)q, std::move(*f))); }
R void k_void(const std::string *n, int q, Fv *f, Ar *a, Ar *b) { runv(make_task<MK(waitable)>(*n, (task_priority)q, std::move(*f), *a, std::move(*b))); }
// a result with a life of its own, asked for twice
template<typename P> void runo(const P &p, Rs *r1, Rs *r2) { static_cast<task_base *>(p.get())->tryGrab(); static_cast<task_base *>(p.get())->execute(); new (r1) Rs(p->getResult()); new (r2) Rs(p->getResult()); }
template<typename P> void runw(const P &p, Rs *r1, Rs *r2) { static_cast<task_base *>(p.get())->tryGrab(); static_cast<task_base *>(p.get())->execute(); new (r1) Rs(p->waitForResult()); new (r2) Rs(p->getResult()); }
R void o_get(const std::string *n, int q, Fo *f, Ar *a, Rs *r1, Rs *r2) { runo(make_task<MK(waitable)>(*n, (task_priority)q, std::move(*f), *a), r1, r2); }
R void o_getf(const std::string *n, int q, Fo *f, Ar *a, Rs *r1, Rs *r2) { runo(make_task<MK(fire_and_forget)>(*n, (task_priority)q, *f, std::move(*a)), r1, r2); }
R void o_wait(const std::string *n, int q, Fo *f, Ar *a, Rs *r1, Rs *r2) { runw(make_task<MK(waitable)>(*n, (task_priority)q, std::move(*f), *a), r1, r2); }
