// Controlled scheduler for threads that run the instrumented library code (variant "sched" only).
#pragma once
#include <functional>
#include <vector>
namespace sched {
enum { MAXT = 3, MAXR = 4096, MAXTRACE = 64 };
struct Place { unsigned long key; unsigned char mask; };          // shared memory through which threads can influence each other
struct Out {                                                      // in shared memory, survives the death of the process
    volatile int state;                                           // 0 not finished, 1 all threads ended, 2 deadlock, 3 does not end
    unsigned points;                                              // points of the execution at which a switch is possible
    unsigned pointThread[65536];                                  // who was running there
    unsigned nplaces; Place places[MAXR];                         // known interaction places (in/out)
    bool grew, full;                                              // the execution found another one
    unsigned long accesses;
    volatile int race; unsigned long raceAt, racePc; bool raceWrite; int raceBy, raceWith;   // first unsynchronised conflict over plain memory
};
void prepare();                                                   // once per process, before forking executions
// runs the threads; thread `first` starts; before the point with index at[i] the baton goes to thread to[i]; otherwise a thread runs until it ends or has to wait
struct Switch { unsigned at; int to; };
void execute(const std::vector<std::function<void()>>& threads, int first, const std::vector<Switch>& switches, Out* out);
}
