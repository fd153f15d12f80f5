// Runtime for concurrent harnesses: a controlled scheduler under real threads.
//
// The code under test and the harness are compiled with -fsanitize=thread, but linked
// with this runtime instead of the sanitizer's: every atomic operation, mutex,
// condition variable, thread, yield, sleep and static-initialization call becomes a
// scheduling point, and exactly one thread runs at a time.  Where more than one
// continuation exists, mc::choose() decides, so that the explorer enumerates all
// schedules within a bound on the preemptions.  Plain accesses to heap and globals are
// checked for data races (vector clocks honouring the memory orders), for use after
// release and for accesses outside of the allocated blocks.
#ifndef TSRT_H
#define TSRT_H
#include "mc.h"
#include <cstdint>

namespace ts {

struct Options {
   int preempt = 2;           // switches away from a thread that could go on (also: early timeouts, ignored yields)
   int casFail = 0;           // spurious failures of weak compare-and-swap, per execution
   int spurious = 0;          // spurious wakeups from condition variables, per execution
   int spin = 3;              // a thread repeating the same unsuccessful reads this often waits for a change
   uint64_t horizon = 20000;  // steps after which an execution is considered endless
   bool leaks = true;         // memory must have been released at the end of the execution
   bool races = true;
   bool choices = true;       // false: one schedule
};
// To be set at the beginning of a scenario body (it is reset before each execution).
extern Options opt;

// Called after each atomic operation, with the value found (reset before each execution).
extern void (*onAtomic)(int thread, const volatile void* addr, uint64_t before, bool wrote);
// A choice of the harness, made by the running thread.
int choose(int n);
// In a quiet section (harness bookkeeping) nothing is scheduled, checked or accounted.
void quietEnter();
void quietLeave();
struct Quiet { Quiet() { quietEnter(); } ~Quiet() { quietLeave(); } Quiet(const Quiet&) = delete; };
// Index of the running thread (0 is the one that runs the scenario body).
int self();
// An explicit scheduling point.
void point();
// Makes v part of the state: executions differing in the sequence of observed values are not merged.
void observe(uint64_t v);
// Waits until every other thread is blocked or finished.
void quiesce();
// Threads that have been started and have not finished (including the running one).
int liveThreads();
int startedThreads();
// Number of sched_yield() calls made by thread t so far.
uint64_t yields(int t);
// Steps made so far (a global order of the scheduling points).
uint64_t steps();
// Bytes and blocks allocated by the code under test and not released yet.
long liveBlocks();
// True if thread t is blocked now (not able to run).
bool blocked(int t);
// True if [p, p+n) is live heap memory of this execution.
bool liveHeap(const void* p, size_t n);
// Virtual time in ns since the start of the execution.
uint64_t vtime();
void setEpoch(int64_t seconds);
}
#endif
