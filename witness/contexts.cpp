// Containers of three contexts each; every hook of every context is declared only.
#include <functional>
#include <memory>
#include "oqpi/error_handling.hpp"
#include "oqpi/threading.hpp"
#include "oqpi/synchronization.hpp"
#include "oqpi/scheduling.hpp"
using namespace oqpi;
#define R extern "C"
#define CTXW(N) struct N { N(worker_base *); void onStart(); void onStop(); void onIdle(); void onActive(); void onPreExecute(const task_handle &); void onPostExecute(const task_handle &); long x; };
#define CTXT(N) struct N { N(task_base *, const std::string &); void onAddedToGroup(const task_group_sptr &); void onPreExecute(); void onPostExecute(); long x; };
#define CTXG(N) struct N { N(task_group_base *, const std::string &); void onAddedToGroup(const task_group_sptr &); void onTaskAdded(const task_handle &); void onPreExecute(); void onPostExecute(); long x; };
CTXW(A1) CTXW(A2) CTXW(A3)
CTXT(B1) CTXT(B2) CTXT(B3)
CTXG(C1) CTXG(C2) CTXG(C3)
using WX = worker_context_container<A1, A2, A3>;
using TX = task_context_container<B1, B2, B3>;
using GX = group_context_container<C1, C2, C3>;
R void x_A_ctor(void *p, worker_base *w) { new (p) WX(w); }
R void x_A_onStart(WX *c) { c->worker_onStart(); }
R void x_A_onStop(WX *c) { c->worker_onStop(); }
R void x_A_onIdle(WX *c) { c->worker_onIdle(); }
R void x_A_onActive(WX *c) { c->worker_onActive(); }
R void x_A_onPreExecute(WX *c, const task_handle *h) { c->worker_onPreExecute(*h); }
R void x_A_onPostExecute(WX *c, const task_handle *h) { c->worker_onPostExecute(*h); }
R void x_B_ctor(void *p, task_base *t, const std::string *n) { new (p) TX(t, *n); }
R void x_B_onAddedToGroup(TX *c, const task_group_sptr *g) { c->task_onAddedToGroup(*g); }
R void x_B_onPreExecute(TX *c) { c->task_onPreExecute(); }
R void x_B_onPostExecute(TX *c) { c->task_onPostExecute(); }
R void x_C_ctor(void *p, task_group_base *t, const std::string *n) { new (p) GX(t, *n); }
R void x_C_onAddedToGroup(GX *c, const task_group_sptr *g) { c->group_onAddedToGroup(*g); }
R void x_C_onTaskAdded(GX *c, const task_handle *h) { c->group_onTaskAdded(*h); }
R void x_C_onPreExecute(GX *c) { c->group_onPreExecute(); }
R void x_C_onPostExecute(GX *c) { c->group_onPostExecute(); }
