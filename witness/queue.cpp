// The concurrent queue, for elements whose members are all declared only.
#include "oqpi/concurrent_queue.hpp"
#include <new>
#define R extern "C"
struct El { El(); El(const El &); El(El &&); El &operator=(const El &); El &operator=(El &&); ~El(); long x; };
using CQ = concurrent_queue<El>;
R void q_push(CQ *q, const El *e) { q->push(*e); }
R void q_pushm(CQ *q, El *e) { q->push(static_cast<El &&>(*e)); }
R bool q_pop(CQ *q, El *e) { return q->tryPop(*e); }
R bool q_empty(const CQ *q) { return q->empty(); }
R void q_ctor(void *p) { new (p) CQ(); }
R long z_cq() { return sizeof(CQ); }
