// Known finding of P16: scheduler::isIdle() reads the task handle of each worker while the worker assigns and resets it.
// clang++ -std=c++17 -g -O1 -fsanitize=thread -I/repo/include worker_task_race.cpp -pthread && ./a.out   (reports a data race)
#include "oqpi.hpp"
#include <memory>
using namespace oqpi;
int main()
{
    scheduler<concurrent_queue> sc;
    worker_config c; c.threadAttributes.name_ = "w";
    sc.registerWorker<thread_interface<>, semaphore_interface<>>(c);
    sc.start();
    for (int i = 0; i < 200; ++i)
    {
        sc.add(make_task<task_type::fire_and_forget, auto_reset_event_interface<>, empty_task_context>("t", task_priority::normal, [] {}));
        while (!sc.isIdle());
    }
    sc.stop();
}
