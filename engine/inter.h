// Real threads which take turns: one runs at a time, and hands over at points of the library's code which the case chose.
// Points: in the "inter" variant every load, store and basic block of the library, and before the C library calls listed
// in inter.cc (wrapped at link time). A thread which has to wait for another one inside the library never hangs the case:
// mutexes hand over while they are taken, and when nothing moves for a while the threads just run freely.
// Harness header lines:  // VF variant: inter    // VF use: inter    // VF wrap: <list in inter.cc>
#pragma once
#include <stdint.h>
#include <functional>
#include <map>
#include <vector>
namespace vf {
struct Turn {
	std::function<void()> fn;
	std::vector<unsigned long> stops; // numbers of the points before which it hands over, ascending
	unsigned long every = 0;          // or before each every-th point
	unsigned long points = 0;         // counted by the run
	std::map<uintptr_t, std::vector<unsigned long>> *sites = nullptr; // if set: the points by place in the code
};
void turns(std::vector<Turn> &t, size_t first);
extern unsigned long turns_taken;         // hand-overs of the last run
extern bool turns_free;                   // it ended running freely
struct TurnKeep { TurnKeep(); ~TurnKeep(); }; // harness code in between: no points in the calling thread
}
