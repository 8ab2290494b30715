// Stand-in for the operating system's entropy (getrandom, /dev/random, /dev/urandom), on top of sysfault.
// Harness header line:  // VF use: sysfault entropy
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <string>
#include <vector>
namespace vf {
enum EntKind { ENT_OK, ENT_SHORT, ENT_ZERO, ENT_ERR };
struct EntStep { EntKind kind; uint32_t n; }; // n: bytes of a short count, or the error number
// The stream is a function of seed and position. All requests are answered in full until a plan is set.
void ent_start(uint64_t seed);
void ent_stop();
// What each successive getrandom, device open and device read does; when a list is used up its last element repeats
// (an empty list means ENT_OK).
void ent_plan(const std::vector<EntStep> &getrandom, const std::vector<EntStep> &open, const std::vector<EntStep> &read);
uint64_t ent_delivered();            // bytes handed out since ent_start
uint64_t ent_delivered_here();       // of which to the calling thread
std::string ent_log(uint64_t from);  // the bytes handed out from that position on
void ent_flip(uint64_t pos);         // the byte at this position gets different content
void ent_fork_stream(uint64_t pos, uint64_t seed2); // from this position on, another stream
int ent_open_devices();              // device descriptors open now
// called (if set) by the thread asking, before and after each request is answered
extern void (*ent_around)(bool after);
void ent_bulk(bool on);              // requests are answered in full size, at most 32 MiB at once, but nothing is written
unsigned ent_calls();                // getrandom calls and device reads seen
}
