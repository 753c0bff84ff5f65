// M01, M02: the parallel routines under the simulated OpenMP runtime.
#include "m_items.hpp"
#include "simrt.hpp"
#include <libff/common/profiling.hpp>
#include <fcntl.h>
#include <unistd.h>
namespace mitems {
std::vector<Group *> &groups() { static std::vector<Group *> g; return g; }
std::vector<Init> &inits() { static std::vector<Init> t; return t; }
static const char *breach = nullptr;
void start() { }
void stop() { if (breach) sim::violate("contract", "%s", breach); }
}
extern "C" void toy_breach(const char *what) { mitems::breach = what; }
namespace {
using namespace mitems;
void prepare(int, char **) {
    libff::inhibit_profiling_info = true; libff::inhibit_profiling_counters = true;
    for (auto i : inits()) i();
}
Group *setup(unsigned real = 1) {      // real: eighths of the runs that are over a real curve
    simrt::Options o; static const unsigned nt[] = {2, 3, 4, 1, 5, 8};
    o.max_threads = nt[sim::choose_w({6, 4, 4, 1, 1, 1})]; o.may_deliver_fewer = sim::chance(1, 6);
    simrt::configure(o);
    // profiling as shipped (counting, printing), counting only, or off
    unsigned p = sim::choose_w({4, 1, 2}); libff::inhibit_profiling_counters = p == 0; libff::inhibit_profiling_info = p != 2;
    int fd = open("/dev/null", O_WRONLY); dup2(fd, 1);
    std::vector<Group *> cheap, dear; for (auto g : groups()) (g->cheap() ? cheap : dear).push_back(g);
    Group *g = dear.empty() || (!cheap.empty() && !sim::chance(real, 8)) ? sim::pick(cheap) : sim::pick(dear);
    sim::ev("threads=%u fewer=%d profiling=%u %s", o.max_threads, o.may_deliver_fewer, p, g->name().c_str());
    return g;
}
sim::Budget *budget;
void wrap() {
    simrt::finish_counts();
    sim::note_state(simrt::schedule_hash());
    sim::hash_event(simrt::schedule_hash()); sim::set_signature(sim::event_hash());
    if (simrt::switches() > 1) sim::nontrivial();
}
void run_m01() { Group *g = setup(2); sim::Budget b(400000000ull); g->multiexp(); wrap(); }
void run_m02() {
    unsigned kind = sim::choose_w({5, 3, 2}); static const unsigned real[] = {2, 6, 4};
    Group *g = setup(real[kind]); sim::Budget b(400000000ull);
    switch (kind) { case 0: g->fixed_base(); break; case 1: g->batch_special(); break; default: g->batch_inv(); }
    wrap();
}
sim::Register r1({"M01", prepare, run_m01}), r2({"M02", prepare, run_m02});
}
