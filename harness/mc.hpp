// Stateless model checking of the real code: every thread runs under a controlled scheduler.
// Instrumented code (clang -fsanitize=thread) calls the runtime of mc_rt.cpp instead of ThreadSanitizer's.
#pragma once
#include <cstdint>
#include <cstddef>
namespace mc {
struct Dev { uint32_t point; uint32_t choice; };
enum { MAXPOINTS = 1 << 16, MAXDEVS = 16 };
struct Result {
	volatile uint32_t status;      // 0 running, 1 complete, 2 violation
	uint32_t npoints;              // choice points met
	uint32_t nsteps;               // scheduling points met
	uint32_t switches;
	uint32_t nthreads;
	uint32_t yields, waits, spurious;
	uint64_t trace;                // hash of the sequence of (thread, operation)
	uint64_t outcome;              // what the scenario observed
	uint32_t accesses;
	char msg[1500];
	uint8_t alts[MAXPOINTS];       // number of alternatives at every choice point
	uint32_t hash[MAXPOINTS];      // running hash at every choice point
};
struct Options { bool spurious = true, explore_start = true; uint32_t step_limit = 40000; unsigned timeout = 30; uint64_t clock_step = 0; };  // clock_step: nanoseconds added by every reading of the clock, 0 = real clock
extern Options opt;
// parent: runs one execution of body in a new process with the given deviations from the default schedule
Result& execute(void (*body)(), const Dev* devs, int ndevs);
// child
void violation(const char* fmt, ...) __attribute__((format(printf, 1, 2), noreturn));
void outcome(uint64_t h);            // adds to the observed outcome
unsigned choose(unsigned n);         // environment choice, 0 is the default
bool active();
void explore(bool on);               // outside of the explored part the default schedule is followed
void settle();                       // lets the other threads run until all are blocked
void acc_read(const void* p, size_t n);
void acc_write(void* p, size_t n);
}
