// I02: threads that initialise curves while other threads initialise or use
// other ones.  In this check the parent never touches the library.
#include "t_common.hpp"
#include "simrt.hpp"
#include <libff/common/profiling.hpp>
#include <fcntl.h>
#include <unistd.h>
namespace {
using namespace titems;
struct Base { std::string params; };
std::vector<Base> base; std::vector<std::vector<const Op *>> ops_of; std::vector<std::string> operands;
std::string digest(const Params &v) { std::string s; for (auto &k : v) { put(s, k.first); put(s, k.second); } return s; }
std::string difference(const std::string &a, const std::string &b) {
    size_t i = 0, j = 0;
    while (i < a.size() && j < b.size()) { std::string n = get(a, i), v = get(a, i), m = get(b, j), w = get(b, j); if (n != m || v != w) return n; }
    return "?";
}
// curves over the same fields: their parameters are shared, so one thread at a time may initialise them
unsigned family(size_t k) { const std::string &n = curves()[k].name; for (size_t j = 0; j < curves().size(); ++j) if (n.compare(0, 3, curves()[j].name, 0, 3) == 0) return j; return k; }
void prepare(int, char **) {
    libff::inhibit_profiling_info = true; libff::inhibit_profiling_counters = true; prelude = simrt::paint_stack; enroll_all();
    for (size_t k = 0; k < curves().size(); ++k) {
        Curve &c = curves()[k]; bool ok;
        std::string s = aside([&] { c.init(); std::string o; put(o, digest(c.params())); for (size_t i = c.shared_from; i < c.shared_to; ++i) { shared()[i]->make(); put(o, shared()[i]->dump()); } return o; }, ok);
        if (!ok || s.empty() || s[0] != 'k') sim::harness_error("%s could not be initialised alone (%s)", c.name.c_str(), s.substr(0, 100).c_str());
        size_t i = 1; Base b; b.params = get(s, i); base.push_back(b);
        for (size_t j = c.shared_from; j < c.shared_to; ++j) operands.push_back(get(s, i));
        std::vector<const Op *> v; for (auto &op : ops()) if (op.cost < 3 && op.name.compare(0, c.name.size(), c.name) == 0) v.push_back(&op); ops_of.push_back(v);
    }
}
// some runs prefer operations of one level: fields, groups or pairings
const Op *draw(size_t k, unsigned focus) {
    const Op *op = sim::pick(ops_of[k]);
    for (int i = 0; i < 20 && focus && op->level != focus; ++i) op = sim::pick(ops_of[k]);
    return op;
}
void load(size_t k) { for (size_t i = curves()[k].shared_from; i < curves()[k].shared_to; ++i) shared()[i]->load(operands[i]); }
struct Act { size_t k; const Op *op; P p; std::string want, got; };     // op null: initialise
void run() {
    simrt::Options o; o.max_threads = 2; simrt::configure(o); simrt::sim_clock().on_read = nullptr;
    text_device(); sim::Budget budget(4000000000ull);
    unsigned prof = sim::choose_w({2, 1, 1});      // counters off, counting, counting and printing
    libff::inhibit_profiling_counters = prof == 0; libff::inhibit_profiling_info = prof != 2;
    size_t C = curves().size(); unsigned T = 2 + sim::choose_w({4, 2, 1});
    // every family belongs to one thread, or is initialised beforehand and then used by any
    std::vector<int> owner(C, -2); unsigned focus = sim::choose(4);
    for (size_t k = 0; k < C; ++k) { unsigned f = family(k); if (f != k) { owner[k] = owner[f]; continue; } unsigned c = sim::choose(T + 1); owner[k] = curves()[k].name == "gf" || c == T ? -1 : (int)c; }
    std::vector<std::vector<Act>> prog(T); std::vector<bool> touched(C, false), inited(C, false); unsigned inits = 0, uses = 0;
    int left = 40; unsigned solo_paint = sim::choose(6);
    for (unsigned t = 0; t < T; ++t) {
        std::vector<size_t> mine, open; for (size_t k = 0; k < C; ++k) { if (owner[k] == (int)t) mine.push_back(k); if (owner[k] == -1) open.push_back(k); }
        std::vector<bool> ready(C, false); unsigned n = 1 + sim::choose(6);
        for (unsigned i = 0; i < n; ++i) {
            Act a; a.op = nullptr; size_t k;
            if (!mine.empty() && (open.empty() || sim::choose_w({3, 1}) == 0)) { k = sim::pick(mine); if (ready[k] && sim::choose_w({3, 1}) == 0) a.op = draw(k, focus); }
            else { k = sim::pick(open); a.op = draw(k, focus); }
            a.k = k; if (!a.op) { ready[k] = true; ++inits; left -= 4; inited[k] = true; }
            else { left -= 1 << a.op->cost; ++uses; sim::Rng g(sim::word32()); for (auto &w : a.p.w) w = g.next(); }
            touched[k] = true; prog[t].push_back(a); sim::ev("thread %u: %s", t, a.op ? a.op->name.c_str() : ("init " + curves()[k].name).c_str());
            if (left < 0) break;
        }
    }
    for (auto &p : prog) for (auto &a : p) if (a.op) {
        const Curve &c = curves()[a.k]; bool ok; std::string s = aside([&] { simrt::paint(solo_paint); c.init(); load(a.k); std::string o; put(o, attempt(*a.op, a.p)); return o; }, ok);
        if (!ok || s[0] != 'k') sim::violate("crash", "%s ended its process where only %s is initialised", a.op->name.c_str(), c.name.c_str());
        size_t i = 1; a.want = get(s, i);
    }
    for (size_t k = 0; k < C; ++k) if (touched[k]) { if (owner[k] == -1) { curves()[k].init(); inited[k] = true; } load(k); }
    std::vector<std::function<void()>> fs;
    for (unsigned t = 0; t < T; ++t) fs.push_back([&, t] { for (auto &a : prog[t]) if (a.op) a.got = attempt(*a.op, a.p); else { try { curves()[a.k].init(); } catch (const std::exception &e) { sim::violate("failure", "initialising %s failed: %s", curves()[a.k].name.c_str(), e.what()); } } });
    simrt::run_threads(fs);
    for (unsigned t = 0; t < T; ++t) for (auto &a : prog[t]) if (a.op) {
        if (!same_outcome(*a.op, a.want, a.got)) sim::violate("interference", "%s gave another result than where only %s is initialised", a.op->name.c_str(), curves()[a.k].name.c_str());
        sim::hash_bytes(a.got.data(), a.got.size());
    }
    for (size_t k = 0; k < C; ++k) if (inited[k] || curves()[k].name == "gf") { std::string now = digest(curves()[k].params()); if (now != base[k].params) sim::violate("other-parameters", "parameter %s of %s is not that of a process that initialised only %s", difference(base[k].params, now).c_str(), curves()[k].name.c_str(), curves()[k].name.c_str()); }
    sim::count("initialisations", inits); sim::count("operations", uses);
    simrt::finish_counts(); sim::note_state(simrt::schedule_hash()); sim::hash_event(simrt::schedule_hash()); sim::set_signature(sim::event_hash());
    if (simrt::switches() > 1 && inits) sim::nontrivial();
}
sim::Register r({"I02", prepare, run});
}
