// Bounded exhaustive explorer: stateless depth-first search over choice sequences.
//
// A scenario is a function that is executed again and again; every source of
// nondeterminism in it goes through mc::choose(n).  The explorer enumerates all
// choice sequences (depth first, by re-execution), spread over forked workers
// that share the work.  A violation is reported with the sequence of choices
// that leads to it, and can be replayed.
#ifndef MC_H
#define MC_H
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <functional>

namespace mc {

// One of n alternatives (0..n-1).
int choose(int n);
// Reports a violation of the property and ends this worker.
[[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
// Reports that the harness itself cannot work (not a violation); ends the check with an error.
[[noreturn]] void broken(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

// --- statistics -----------------------------------------------------------
// Records a state (by hash); true if it was not seen before in this scenario.
bool state(uint64_t hash);
void transition(uint64_t n = 1);
// Records an observable outcome of the execution (distinct ones are counted).
void outcome(uint64_t hash);
// Human-readable trace of the execution; recorded for samples and replays only.
bool noting();
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
// When true the execution goes on without branching (its future was explored already).
void prune();
bool pruned();
void setPruned(bool on);       // (without recording anything; for the runtimes)
// True if the next choice is a new one (not one being replayed from the current path).
bool fresh();
// Number of the scenario's tier parameters.
bool thorough();

inline uint64_t mix(uint64_t h) {
   h ^= h >> 33; h *= 0xff51afd7ed558ccdULL; h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ULL; h ^= h >> 33; return h;
}
inline uint64_t hash2(uint64_t a, uint64_t b) { return mix(a * 0x9e3779b97f4a7c15ULL + mix(b + 0x7f4a7c15)); }
uint64_t hashBytes(const void* p, size_t n, uint64_t seed = 0);
inline uint64_t hashStr(const std::string& s, uint64_t seed = 0) { return hashBytes(s.data(), s.size(), seed); }

struct Scenario {
   std::string name;
   std::function<void()> body;
   bool forked = false;        // run each execution in a process of its own
   double cap_s = 60;          // wall-clock cap (a capped scenario is reported as not exhaustive)
   std::string bounds;         // description of the bounds, for the evidence
};

// Called before each execution and after each (used by the runtimes).
extern void (*on_begin)();
extern void (*on_end)();
// Called once per worker before its first execution.
extern void (*on_worker)();
// How to run a scenario body (the concurrent runtime runs it in a controlled thread).
extern void (*run_body)(const std::function<void()>&);

extern const Scenario* current;

// The scenario builder is given thorough = true/false.
int main(int argc, char** argv, std::function<std::vector<Scenario>(bool thorough)> build);

}

#define MC_CHECK(cond, ...) do { if(!(cond)) ::mc::fail(__VA_ARGS__); } while(0)
#endif
