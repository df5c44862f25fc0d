// Interface between an instrumented harness and the scheduler behind its memory accesses
#pragma once
#include <cstddef>
#include <cstdint>

namespace sched {

const int TABLE = 1 << 16, POINTS = 1 << 14, PREEMPTIONS = 4;

// what one execution left behind, in memory shared with the parent process
struct Report {
	uint64_t granule[2][TABLE]; // address / 8, zero if empty
	unsigned char access[2][TABLE]; // 1 read, 2 written
	int used[2];
	bool full;
	int points; // scheduling points passed
	int switches;
	bool deadlock;
};
// set by the parent before it forks
struct Config {
	Report *report;
	uint64_t point[POINTS]; // conflicting granules, hashed
	int points;
	int preempt[PREEMPTIONS]; // scheduling point numbers at which the running thread is preempted
	int preemptions;
	int first; // the thread that starts
	bool alone; // only the first thread exists
};
extern Config config;
bool add_point(uint64_t granule); // true if it is new
// runs body(0) and body(1) in two threads of which only one is ever running
void run(void (*body)(int));

}
