// Known finding of P16: scheduler::add() reads the parent of a member whose priority is inherited while another thread,
// waiting actively on the group, executes that member and clears its parent.
// clang++ -std=c++17 -g -O1 -fsanitize=thread -I/repo/include parent_race.cpp -pthread && ./a.out   (reports a data race)
#include "oqpi.hpp"
#include <memory>
#include <thread>
using namespace oqpi;
int main()
{
    using event = auto_reset_event_interface<>;
    scheduler<concurrent_queue> sc;
    worker_config c; c.threadAttributes.name_ = "w"; c.count = 2;
    sc.registerWorker<thread_interface<>, semaphore_interface<>>(c);
    sc.start();
    for (int i = 0; i < 300; ++i)
    {
        auto g = make_parallel_group<task_type::waitable, empty_group_context>(sc, "g", task_priority::normal, 8);
        for (int k = 0; k < 8; ++k) g->addTask(make_task<task_type::fire_and_forget, event, empty_task_context>("t", task_priority::inherit, [] {}));
        task_handle h(g);
        sc.add(h);
        h.activeWait();
    }
    sc.stop();
}
