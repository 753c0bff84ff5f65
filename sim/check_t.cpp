// T01-T03: concurrent threads run drawn programs of library operations over
// shared operands; every result must be what the operation gives alone.
#include "t_common.hpp"
#include "simrt.hpp"
#include <libff/common/profiling.hpp>
#include <fcntl.h>
#include <map>
#include <unistd.h>
namespace libff { extern std::map<std::string, size_t> invocation_counts; }
namespace {
using namespace titems;
std::vector<std::string> raw;
std::string counts() { std::string s; for (auto &k : libff::invocation_counts) put(s, k.first), put(s, std::to_string(k.second)); return s; }
void add_counts(const std::string &s, std::map<std::string, size_t> &m) { for (size_t i = 0; i < s.size();) { std::string k = get(s, i); m[k] += std::stoul(get(s, i)); } }

void prepare(int, char **) {
    libff::inhibit_profiling_info = true; libff::inhibit_profiling_counters = true;
    prelude = simrt::paint_stack; enroll_all(); for (auto &c : curves()) c.init();
    load_operands(raw);
}
struct Step { const Op *op; P p; };
std::string step(const Step &s) { return attempt(*s.op, s.p); }
void run(unsigned level) {
    simrt::Options o; static const unsigned nt[] = {2, 3, 4, 2}; o.max_threads = nt[sim::choose(4)]; simrt::configure(o);
    simrt::sim_clock().on_read = nullptr;
    unsigned prof = level == 3 ? sim::choose_w({2, 2, 1}) : 0;      // counters off, counting, counting and printing
    libff::inhibit_profiling_counters = prof == 0; libff::inhibit_profiling_info = prof != 2;
    text_device();
    sim::Budget budget(2000000000ull);
    // programs, with a bias to several threads doing the same thing
    std::vector<const Op *> mine; for (auto &x : ops()) if (x.level == level) mine.push_back(&x);
    const Op *focus = sim::pick(mine); std::string prefix = focus->name.substr(0, focus->name.rfind('.') + 1);
    std::vector<const Op *> kin; for (auto x : mine) if (x->name.compare(0, prefix.size(), prefix) == 0) kin.push_back(x);
    unsigned T = sim::choose_w({6, 3, 2, 1}); T = T == 3 ? 1 : T + 2;
    unsigned solo_paint = sim::choose(6);
    int left = level == 3 ? 4 : 24; std::vector<std::vector<Step>> prog(T); unsigned total = 0;
    uint64_t base = sim::word32(); bool together = sim::chance(1, 2);
    for (unsigned t = 0; t < T; ++t) {
        unsigned n = 1 + sim::choose(level == 3 ? 2 : 6);
        for (unsigned k = 0; k < n; ++k) {
            Step s; s.op = k == 0 || sim::chance(1, 2) ? focus : sim::chance(2, 3) ? sim::pick(kin) : sim::pick(mine);
            left -= level == 3 ? (s.op->cost > 1) : 1 << s.op->cost; if (left < 0 && t + k > (T > 1 ? 1u : 0u)) { s.op = nullptr; break; }
            sim::Rng g(together ? base + sim::choose(4) : sim::word32()); for (auto &w : s.p.w) w = g.next();
            if (g.next() % 5 == 0) s.p.w[1] = s.p.w[0];      // one object in both places
            if (k && sim::chance(1, 3)) { s.p = prog[t][k - 1].p; s.p.w[sim::choose(3)] ^= 1; if (sim::chance(1, 2)) s.op = prog[t][k - 1].op; }     // the last step's operands but one
            prog[t].push_back(s); ++total; sim::hash_event(sim::fnv(s.op->name) + s.p.w[0]);
            sim::ev("thread %u: %s %llx", t, s.op->name.c_str(), (unsigned long long)s.p.w[0]);
        }
    }
    // shared precomputed values are sometimes made before the threads start
    std::string pp = focus->name.substr(0, focus->name.find('.'));
    unsigned npre = level == 3 && sim::chance(1, 2) ? 1 + sim::choose(2) : 0; uint64_t before = 0; Precomps *pc = nullptr;
    if (npre) { size_t k = 0; for (auto &x : ops()) if (x.level == 3 && x.name.find(".precompute_G1") != std::string::npos) { if (x.name.compare(0, pp.size() + 1, pp + ".") == 0) pc = precomps()[k]; ++k; } }
    if (pc) { pc->make(npre); sim::ev("%u shared precomputations", npre); bool ok; std::string d = aside([&] { return std::to_string(pc->digest()); }, ok); before = sim::fnv(d); libff::invocation_counts.clear(); }
    // alone: one process per step (or per program when there are many)
    std::vector<std::vector<std::string>> solo(T), got(T); std::map<std::string, size_t> want, have;
    for (unsigned t = 0; t < T; ++t) for (size_t k = 0; k < prog[t].size(); ++k) {
        bool ok; const Step &s = prog[t][k]; std::string r = aside([&] { simrt::paint(solo_paint); std::string o; put(o, step(s)); put(o, counts()); return o; }, ok);
        if (!ok) sim::violate("crash", "%s run alone ended its process", s.op->name.c_str());
        size_t i = 1; solo[t].push_back(get(r, i)); add_counts(get(r, i), want);
    }
    std::vector<std::function<void()>> fs;
    for (unsigned t = 0; t < T; ++t) { got[t].resize(prog[t].size()); fs.push_back([&, t] { for (size_t k = 0; k < prog[t].size(); ++k) got[t][k] = step(prog[t][k]); }); }
    if (T == 1) fs[0](); else simrt::run_threads(fs);
    std::string after = counts();
    for (unsigned t = 0; t < T; ++t) for (size_t k = 0; k < prog[t].size(); ++k) {
        const Op *op = prog[t][k].op; const std::string &a = solo[t][k], &b = got[t][k];
        bool same = same_outcome(*op, a, b);
        if (!same) sim::violate(T == 1 ? "history-dependence" : "interference", "%s (step %zu of thread %u of %u) gave another result than alone", op->name.c_str(), k, t, T);
        sim::hash_bytes(b.data(), b.size());
    }
    for (size_t i = 0; i < shared().size(); ++i) if (shared()[i]->dump() != raw[i]) sim::violate("operand-changed", "a shared operand changed during %s", focus->name.c_str());
    if (pc) { bool ok; std::string d = aside([&] { return std::to_string(pc->digest()); }, ok); if (sim::fnv(d) != before) sim::violate("operand-changed", "shared precomputed values changed during %s", focus->name.c_str()); }
    if (prof) { add_counts(after, have); if (have != want) { for (auto &k : want) if (have[k.first] != k.second) sim::violate("block-counts", "block \"%s\" was counted %zu times, alone %zu times", k.first.c_str(), have[k.first], k.second); sim::violate("block-counts", "blocks were counted that alone were not"); } }
    sim::count("operations", total); sim::count(("threads_" + std::to_string(T)).c_str()); if (pc) sim::count("runs_with_shared_precomputations");
    simrt::finish_counts(); sim::note_state(simrt::schedule_hash()); sim::hash_event(simrt::schedule_hash()); sim::set_signature(sim::event_hash());
    if (simrt::switches() > 1 || (T == 1 && total > 1)) sim::nontrivial();
}
void t1() { run(1); } void t2() { run(2); } void t3() { run(3); }
sim::Register r1({"T01", prepare, t1}), r2({"T02", prepare, t2}), r3({"T03", prepare, t3});
}
