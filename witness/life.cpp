// The entry points of core.cpp; the function of a thread is moved to storage of its own, as a real thread does, before it runs.
#define VERIF_OWN_FUNCTION
#include "core.cpp"
