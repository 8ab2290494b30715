// Stand-in clocks and sleeps: the library's calls of clock_gettime, gettimeofday, time, timespec_get, nanosleep,
// clock_nanosleep, usleep and sleep are answered from a simulated time while armed.
// Harness header line:  // VF use: clock   // VF wrap: clock_gettime,clock_getres,gettimeofday,time,timespec_get,nanosleep,clock_nanosleep,usleep,sleep
#pragma once
#include <stdint.h>
#include <time.h>
#include <vector>
namespace vf {
typedef __int128 ns_t;
struct ClkReading { int clock; ns_t t; };
struct Clk {
	ns_t now;                // CLOCK_MONOTONIC
	ns_t off[12];            // other clock = now + off[clock]
	uint64_t lat_max;        // each call takes up to this much before and after reading
	uint64_t lat_seed;
	long fail_at;            // 0-based clock read which fails, -1: none
	int fail_err;
	// sleeping
	int sleep_err;           // 0: sleeps end normally; EINTR: interrupted after sleep_part/256 of it; else refused at once
	unsigned sleep_part;
	unsigned sleep_over;     // oversleep, ns
	void (*hook)();          // called before each read (e.g. to set the clock)
	bool (*sleeper)(ns_t);   // takes over sleeps which nothing disturbs; false: not here
	// results
	long reads, failed, sleeps;
	bool failed_here;
	std::vector<ClkReading> log;
};
extern Clk clk;
void clk_reset();            // zeroes, no failure
void clk_arm();
void clk_disarm();
}
