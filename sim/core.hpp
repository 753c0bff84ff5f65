// Core of the simulator: one stream of integer decisions per run, one forked
// process per run, violations, counters, and the event hash.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdarg>
#include <initializer_list>
#include <string>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- decisions
// Every choice of a run goes through these.  The value (not the raw random
// word) is recorded; on replay it is read back (missing: 0), so 0 must always
// be the simplest choice.
uint64_t choose(uint64_t bound);                       // uniform in [0,bound)
uint64_t choose_log(uint64_t max);                     // log-uniform in [0,max]
bool chance(unsigned num, unsigned den);               // true with num/den
unsigned choose_w(std::initializer_list<unsigned> w);  // weighted index
uint64_t word();                                       // any 64-bit value
uint64_t word32();                                     // any 32-bit value
template<class T> const T &pick(const std::vector<T> &v) { return v[choose(v.size())]; }

uint64_t decisions();                                  // taken so far in this run

// A private generator for bulk data, seeded by one decision.
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed) {}
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
};

// ------------------------------------------------------------------ events
void ev(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void hash_event(uint64_t a);
void hash_bytes(const void *p, size_t n);
uint64_t event_hash();
extern bool verbose;        // text log wanted (replay)

// ---------------------------------------------------------------- outcomes
// Ends the run (the process of the run) with a violation.
[[noreturn]] void violate(const char *vclass, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
// Ends the run as an error of the harness.
[[noreturn]] void harness_error(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void count(const char *name, uint64_t n = 1);     // coverage counters
void nontrivial();                                // this run did something of interest
void set_signature(uint64_t h);                   // distinctness measure of the run (default: event hash)
void note_state(uint64_t h);                      // further distinct states seen

// ------------------------------------------------------------ step budgets
extern volatile uint64_t steps;        // advanced by instrumented code
extern volatile uint64_t step_limit;   // exceeding it is a violation (class "no-progress")
struct Budget {
    uint64_t saved, start;
    explicit Budget(uint64_t n) : saved(step_limit), start(steps) { step_limit = steps + n; }
    ~Budget() { step_limit = saved; }
    uint64_t used() const { return steps - start; }
};

// -------------------------------------------------------------- properties
struct Check {
    const char *id;
    void (*prepare)(int argc, char **argv);   // in the parent, once
    void (*run)();                            // in a forked child, per seed
    const char *determined = nullptr;         // if not null: the property itself says that a run's outcome is determined; how it is broken otherwise
};
void register_check(const Check &c);
struct Register { Register(const Check &c) { register_check(c); } };

uint64_t run_index();
const char *config_name();
int tier();      // 0 quick 1 thorough

inline uint64_t fnv(const void *p, size_t n, uint64_t h = 1469598103934665603ull) {
    const unsigned char *c = (const unsigned char *)p;
    for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; }
    return h;
}
inline uint64_t fnv(const std::string &s) { return fnv(s.data(), s.size()); }

} // namespace sim
