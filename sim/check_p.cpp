// P01: histories of entering and leaving profiling blocks under a simulated
// clock, checked step by step against a small model of the records.
#include <algorithm>
#include "simrt.hpp"
#include <libff/algebra/curves/alt_bn128/alt_bn128_pp.hpp>
#include <libff/common/profiling.hpp>
#include <cerrno>
#include <cstdio>
#include <cstring>
#include <map>
#include <stdexcept>
#include <unistd.h>
using namespace libff;
namespace {
typedef alt_bn128_Fr Fr_; typedef alt_bn128_Fq Fq_; typedef alt_bn128_G1 G1_; typedef alt_bn128_G2 G2_;
std::vector<G1_> pts; Fr_ fr; Fq_ fq; G1_ g1; G2_ g2;
#ifdef PROFILE_OP_COUNTS
struct CntName { const char *name; long long *p; };
CntName cnts[] = {{"Fradd", &Fr_::add_cnt}, {"Frsub", &Fr_::sub_cnt}, {"Frmul", &Fr_::mul_cnt}, {"Frinv", &Fr_::inv_cnt}, {"Fqadd", &Fq_::add_cnt}, {"Fqsub", &Fq_::sub_cnt}, {"Fqmul", &Fq_::mul_cnt}, {"Fqinv", &Fq_::inv_cnt}, {"G1add", &G1_::add_cnt}, {"G1dbl", &G1_::dbl_cnt}, {"G2add", &G2_::add_cnt}, {"G2dbl", &G2_::dbl_cnt}};
#endif
typedef std::map<std::string, long long> Counts;
Counts ops_now() {
    Counts c;
#ifdef PROFILE_OP_COUNTS
    for (auto &x : cnts) c[x.name] = *x.p;
#endif
    return c;
}
// ------------------------------------------------------------------- stdout
std::string captured; size_t wrote = 0;
ssize_t on_write(void *, const char *b, size_t n) {
    wrote += n; if (wrote > 1 << 20) sim::violate("no-progress", "one operation of the profiling records printed more than a megabyte");
    captured.append(b, n); return n;
}
std::string take() { fflush(stdout); std::string s; s.swap(captured); wrote = 0; return s; }
void prepare(int, char **) {
    inhibit_profiling_info = true; inhibit_profiling_counters = true;
    alt_bn128_pp::init_public_params();
    fr = Fr_(7); fq = Fq_(5); g1 = G1_::one(); g2 = G2_::one();
    G1_ g = g1; for (int i = 0; i < 5; ++i) { g = g.dbl() + g1; pts.push_back(g); }
}
// -------------------------------------------------------------------- clock
simrt::Clock &ck() { return simrt::sim_clock(); }
unsigned reads = 0; int failing = 0;
void pass(int64_t ns) { ck().mono_ns += ns; ck().real_ns += ns; ck().cpu_ns += ns / 3 * 2; }
void pass_drawn() {
    int64_t ns = sim::choose_log(sim::chance(1, 12) ? 7200ll * 1000000000ll : 3000000000ll);
    pass(ns); sim::ev("%lld ns pass", (long long)ns); sim::count("simulated_us", ns / 1000);
}
void step_wall() {
    int64_t ns = (int64_t)sim::choose_log(400ll * 86400 * 1000000000ll); bool back = sim::chance(2, 3);
    ck().real_ns += back ? -ns : ns; sim::ev("the wall clock is set %s by %lld ns", back ? "back" : "forward", (long long)ns); sim::count(back ? "fault.wall_clock_set_back" : "fault.wall_clock_set_forward");
}
// -------------------------------------------------------------------- model
struct Open { std::string name; bool indent; int64_t at, cpu; Counts ops; };
struct Model {
    std::map<std::string, size_t> inv; std::map<std::string, long long> last, cum; std::map<std::string, Counts> cumops;
    std::vector<Open> open; size_t level = 0; int64_t start = 0, printed = 0, cstart = 0, cprinted = 0; bool started = false;
    std::vector<std::string> shadow;        // blocks entered while counters were inhibited
};
Model m; std::vector<std::string> names;
std::string sn(const std::string &s) { return s.size() > 20 ? s.substr(0, 20) + "..." : s; }
void compare(const char *when, const std::string &own) {
    for (auto &n : names) {
        auto a = m.inv.find(n); auto b = invocation_counts.find(n); size_t x = a == m.inv.end() ? 0 : a->second, y = b == invocation_counts.end() ? 0 : b->second;
        if (x != y) sim::violate("invocation-count", "after %s: block \"%s\" was completed %zu times, recorded %zu", when, sn(n).c_str(), x, y);
        auto chk = [&](const char *what, std::map<std::string, long long> &mm, std::map<std::string, long long> &rr) {
            auto c = mm.find(n); auto d = rr.find(n); bool has = d != rr.end() && (c != mm.end() || d->second != 0); long long v = c == mm.end() ? 0 : c->second, w = d == rr.end() ? 0 : d->second;
            if (v != w || (c != mm.end() && !has && v)) sim::violate(what, "after %s: block \"%s\": clock showed %lld ns, recorded %lld ns", when, sn(n).c_str(), v, w); };
        chk("last-time", m.last, last_times); chk("cumulative-time", m.cum, cumulative_times);
    }
    (void)own;
}
void check_level(const char *when) {
    take(); print_indent(); std::string s = take();
    if (s != std::string(2 * m.level, ' ')) sim::violate("nesting-level", "after %s: nesting level is %zu, the history implies %zu", when, s.size() / 2, m.level);
}
bool has_line(const std::string &out, const char *kind, const std::string &name, std::string &line) {
    size_t i = 0; while (i < out.size()) { size_t j = out.find('\n', i); if (j == std::string::npos) j = out.size(); std::string l = out.substr(i, j - i);
        std::string want = std::string(2 * m.level, ' ') + kind + " " + name; if (l.compare(0, want.size(), want) == 0) { line = l.substr(want.size()) + out.substr(j); return true; } i = j + 1; }
    return false;
}
// the first number in brackets after the name; absent: no time passed
bool bracket(const std::string &line, double &v) { size_t i = line.find('['); if (i == std::string::npos) return false; char *e; v = strtod(line.c_str() + i + 1, &e); if (e == line.c_str() + i + 1) v = 0; return true; }
void near(const char *what, double got, int64_t ns) { double want = ns * 1e-9; if (got < want - 6e-5 || got > want + 6e-5) sim::violate("printed-time", "%s shows %.4f s, the clock showed %.4f s", what, got, want); }
// "x" and the processor time per time that passed, where it stands behind the time in brackets
void parallel(const char *what, const std::string &line, int64_t cpu, int64_t ns) {
    double t, x; size_t i = line.find('['); if (i == std::string::npos || sscanf(line.c_str() + i + 1, "%lfs x%lf", &t, &x) != 2 || ns <= 0) return;
    double want = (double)cpu / ns; if (x < want - 0.0051 || x > want + 0.0051) sim::violate("printed-time", "%s shows %.2f times the processor time that passed, it was %.2f", what, x, want);
}
// The time from the start of profiling, in round brackets, and the processor time per that.
void from_start(const char *what, const std::string &line) {
    double t, x; size_t i = line.find("\t("); if (!m.started || i == std::string::npos || sscanf(line.c_str() + i + 2, "%lfs x%lf from start", &t, &x) != 2) return;
    int64_t ns = ck().mono_ns - m.start, cpu = ck().cpu_ns - m.cstart; near(what, t, ns); double want = (double)cpu / ns;
    if (ns > 0 && (x < want - 0.0051 || x > want + 0.0051)) sim::violate("printed-time", "%s shows %.2f times the processor time that passed from the start, it was %.2f", what, x, want);
}
void printed_ops(const std::string &out, const Counts &before) {
#ifdef PROFILE_OP_COUNTS
    Counts now = ops_now(); size_t i = out.find("(opcounts)"); if (i == std::string::npos) sim::violate("op-counts", "no operation counts were printed");
    for (auto &x : cnts) { std::string k = std::string(x.name) + "="; size_t p = out.find(k, i); if (p == std::string::npos) sim::violate("op-counts", "%s was not printed", x.name);
        long long v = strtoll(out.c_str() + p + k.size(), 0, 10), w = now[x.name] - before.at(x.name); if (v != w) sim::violate("op-counts", "%s: %lld operations were done in the block, %lld were printed", x.name, w, v); }
#else
    (void)out; (void)before;
#endif
}
bool info() { return !inhibit_profiling_info; }
// The call reports a failing processor clock and then leaves the records as they were.
template<class F> bool with_failure(const char *what, F f) {
    failing = 1; bool threw = false; try { f(); } catch (const std::runtime_error &) { threw = true; } failing = 0;
    sim::ev("%s with a failing processor clock: %s", what, threw ? "exception" : "no exception"); sim::count("fault.clock_failure");
    if (!threw) sim::violate("clock-failure-hidden", "%s did not report that the processor clock failed", what);
    return true;
}
void do_enter(const std::string &n, bool indent) {
    take();
    if (!inhibit_profiling_counters && sim::chance(1, 14)) { with_failure("entering a block", [&] { enter_block(n, indent); }); compare("a failed enter", n); check_level("a failed enter"); take(); }
    sim::ev("enter \"%s\"%s", sn(n).c_str(), indent ? "" : " (not indented)");
    enter_block(n, indent); std::string out = take(), line;
    if (inhibit_profiling_counters) { m.shadow.push_back(n); if (!out.empty()) sim::violate("inhibited-output", "entering printed although counters are inhibited"); return; }
    if (info()) { if (!has_line(out, "(enter)", n, line)) sim::violate("missing-output", "entering \"%s\" at level %zu printed: %s", sn(n).c_str(), m.level, out.substr(0, 120).c_str()); double v; if (bracket(line, v)) near("entering", v, 0); from_start("entering", line.substr(0, line.find('\n'))); }
    else if (!out.empty()) sim::violate("inhibited-output", "entering printed although output is inhibited");
    m.open.push_back({n, indent, ck().mono_ns, ck().cpu_ns, ops_now()}); if (indent) ++m.level;
}
void do_leave() {
    take();
    if (inhibit_profiling_counters) { std::string n = m.shadow.back(); m.shadow.pop_back(); sim::ev("leave \"%s\"", sn(n).c_str()); leave_block(n); if (!take().empty()) sim::violate("inhibited-output", "leaving printed although counters are inhibited"); return; }
    Open o = m.open.back();
    if (sim::chance(1, 14)) { with_failure("leaving a block", [&] { leave_block(o.name, o.indent); }); compare("a failed leave", o.name); check_level("a failed leave"); take(); }
    sim::ev("leave \"%s\"", sn(o.name).c_str());
    leave_block(o.name, o.indent); std::string out = take(), line;
    m.open.pop_back(); if (o.indent) --m.level; long long d = ck().mono_ns - o.at; ++m.inv[o.name]; m.last[o.name] = d; m.cum[o.name] += d;
    for (auto &k : ops_now()) m.cumops[o.name][k.first] += k.second - o.ops[k.first];
    if (info()) { if (!has_line(out, "(leave)", o.name, line)) sim::violate("missing-output", "leaving \"%s\" at level %zu printed: %s", sn(o.name).c_str(), m.level, out.substr(0, 120).c_str()); double v; if (bracket(line, v)) near("leaving", v, d); parallel("leaving", line, ck().cpu_ns - o.cpu, d); from_start("leaving", line.substr(0, line.find('\n'))); printed_ops(line, o.ops); }
    else if (!out.empty()) sim::violate("inhibited-output", "leaving printed although output is inhibited");
}
// work of the library inside blocks of its own
void library_work() {
    unsigned k = sim::choose(6); sim::ev("library work %u", k);
    switch (k) {
    case 0: fr = fr * fr + fr; break;
    case 1: fq = (fq + fq).inverse() - fq; break;
    case 2: g1 = g1.dbl() + pts[0]; break;
    case 3: g2 = g2 + g2.dbl(); break;
    case 4: { std::vector<G1_> v = pts; v.push_back(g1.dbl() + g1); G1_::batch_to_special_all_non_zeros(v); break; }
    case 5: alt_bn128_G1_precomp p = alt_bn128_ate_precompute_G1(pts[1]); (void)p; break;
    }
}
void print_cumulative() {
    take(); long long f = 1 + sim::choose(5); print_cumulative_times(f); std::string out = take(); sim::ev("print cumulative times / %lld", f);
    for (auto &n : names) {
        if (!m.inv.count(n) || n.find_first_not_of(" ") == std::string::npos) continue;
        size_t i = out.find("\n   " + n + (n.size() < 45 ? std::string(45 - n.size(), ' ') : "") + ":");
        if (i == std::string::npos) sim::violate("cumulative-print", "block \"%s\" is not among the printed cumulative times", sn(n).c_str());
        const char *p = out.c_str() + i + 5 + std::max<size_t>(n.size(), 45); double tot = 0, per = 0, avg = 0; long long f1 = 0; size_t c = 0;
        if (sscanf(p, " %lfms = %lld * %lfms (%zu invocations, %lfms", &tot, &f1, &per, &c, &avg) != 5) sim::violate("cumulative-print", "cannot read the cumulative time of \"%s\": %.60s", sn(n).c_str(), p);
        double w = m.cum[n] * 1e-6; auto near = [](double a, double b) { return a >= b - 1e-5 - b * 1e-9 && a <= b + 1e-5 + b * 1e-9; };
        if (!near(tot, w) || f1 != f || !near(per, w / f) || c != m.inv[n] || !near(avg, w / m.inv[n])) sim::violate("cumulative-print", "block \"%s\": %.5f ms in %zu invocations were printed as %.5f ms in %zu", sn(n).c_str(), w, m.inv[n], tot, c);
    }
}
void print_ops() {
#ifdef PROFILE_OP_COUNTS
    take(); bool fqonly = sim::chance(1, 3); print_cumulative_op_counts(fqonly); std::string out = take(); sim::ev("print cumulative operation counts");
    for (auto &n : names) {
        if (!m.inv.count(n) || n.find_first_not_of(" ") == std::string::npos) continue;
        std::string head = "\n  " + n + (n.size() < 45 ? std::string(45 - n.size(), ' ') : "") + ": "; size_t i = out.find(head);
        if (i == std::string::npos) sim::violate("op-counts", "block \"%s\" is not among the printed operation counts", sn(n).c_str());
        size_t e = out.find('\n', i + 1); std::string l = out.substr(i + head.size(), e - i - head.size());
        for (auto &x : cnts) {
            if (fqonly && strncmp(x.name, "Fq", 2)) continue;
            size_t p = l.find(x.name); if (p == std::string::npos) sim::violate("op-counts", "%s is not printed for block \"%s\"", x.name, sn(n).c_str());
            double v = 0; size_t c = 0; if (sscanf(l.c_str() + p + strlen(x.name), " = %lf (%zu)", &v, &c) != 2) sim::violate("op-counts", "cannot read: %.60s", l.c_str() + p);
            double w = 1. * m.cumops[n][x.name] / m.inv[n]; if (v < w - 0.51 || v > w + 0.51 || c != m.inv[n]) sim::violate("op-counts", "block \"%s\": %s was %.1f per invocation, printed %.0f", sn(n).c_str(), x.name, w, v);
        }
    }
#endif
}
void alone() {
    sim::Budget budget(50000000); unsigned n = 4 + sim::choose(60); unsigned did = 0;
    inhibit_profiling_counters = false; inhibit_profiling_info = sim::chance(1, 2);
    if (!inhibit_profiling_info) sim::count("runs_with_output");
    m.start = m.printed = 0;
    // a deep nesting of many blocks
    bool deep = sim::chance(1, 10); if (deep) { n = 60 + sim::choose(160); for (unsigned i = 0, k = 20 + sim::choose(80); i < k; ++i) names.push_back("block " + std::to_string(i)); sim::count("deep_nestings"); }
    for (unsigned i = 0; i < n; ++i) {
        bool off = inhibit_profiling_counters; size_t depth = off ? m.shadow.size() : m.open.size();
        switch (deep && i < n / 2 ? sim::choose_w({16, 1, 3, 1, 1}) : sim::choose_w({10, 9, 8, 3, 2, 2, 4, 1, 1, 1, 1, 1})) {
        case 0: { std::vector<std::string> free; for (auto &x : names) { bool used = false; for (auto &o : m.open) used |= o.name == x; for (auto &o : m.shadow) used |= o == x; if (!used) free.push_back(x); }
            if (free.empty()) break; bool ind = !sim::chance(1, 5); do_enter(sim::pick(free), ind); ++did; break; }
        case 1: if (depth) { do_leave(); ++did; } break;
        case 2: pass_drawn(); break;
        case 3: step_wall(); break;
        case 4: inhibit_profiling_info = !inhibit_profiling_info; sim::ev("output is %s", inhibit_profiling_info ? "inhibited" : "allowed"); sim::count(m.open.empty() ? "output_toggled" : "output_toggled_inside_block"); break;
        case 5: if (!off) { inhibit_profiling_counters = true; sim::ev("counters are inhibited"); sim::count("counters_inhibited"); } else if (m.shadow.empty()) { inhibit_profiling_counters = false; sim::ev("counters are allowed"); } break;
        case 6: { std::vector<Open> o = m.open; library_work(); take(); break; }
        case 7: { if (!m.open.empty()) sim::count("cleared_inside_block"); sim::ev("clear"); clear_profiling_counters(); m.inv.clear(); m.last.clear(); m.cum.clear(); m.cumops.clear(); } break;
        case 8: print_cumulative(); break;
        case 9: print_ops(); break;
        case 10: { take(); start_profiling(); take(); m.started = true; m.start = m.printed = ck().mono_ns; m.cstart = m.cprinted = ck().cpu_ns; sim::ev("start profiling"); break; }
        case 11: if (m.started) { take(); print_time("now"); std::string out = take(); sim::ev("print time");
            if (inhibit_profiling_info) { if (!out.empty()) sim::violate("inhibited-output", "print_time printed although output is inhibited"); }
            else { double v; if (out.compare(0, 3, "now") || !bracket(out, v)) sim::violate("missing-output", "print_time printed: %s", out.substr(0, 80).c_str()); near("print_time", v, ck().mono_ns - m.printed); parallel("print_time", out, ck().cpu_ns - m.cprinted, ck().mono_ns - m.printed); m.printed = ck().mono_ns; m.cprinted = ck().cpu_ns;
                from_start("print_time from the start", out); } } break;
        }
        compare("an operation", ""); check_level("an operation");
    }
    while (!m.shadow.empty()) do_leave();
    inhibit_profiling_counters = false; while (!m.open.empty()) { do_leave(); ++did; if (sim::chance(1, 3)) pass_drawn(); }
    compare("leaving all blocks", ""); check_level("leaving all blocks"); print_cumulative(); print_ops();
    sim::count("blocks_entered_and_left", did); if (did > 2) sim::nontrivial();
}
// ------------------------------------------------------------------ threads
#ifdef MULTICORE
struct Act { int kind; std::string name; bool indent; int64_t ns; };
void together() {
    simrt::Options o; simrt::configure(o); sim::Budget budget(50000000);
    inhibit_profiling_counters = sim::chance(1, 10); inhibit_profiling_info = sim::chance(1, 2); bool off = inhibit_profiling_counters;
    unsigned T = 2 + sim::choose(3); std::vector<std::vector<Act>> prog(T);
    for (unsigned t = 0; t < T; ++t) {
        std::vector<Act> st; unsigned n = 2 + sim::choose(14), nn = 4; if (sim::chance(1, 8)) { n += 30; nn = 40; }
        for (unsigned i = 0; i < n || !st.empty(); ++i) {
            unsigned k = i >= n ? 1 : sim::choose_w({4, 3, 3, 1});
            if (k == 0) { std::string nm = "t" + std::to_string(t) + "." + std::to_string(sim::choose(nn)); bool used = false; for (auto &a : st) used |= a.name == nm; if (used) continue; Act a{0, nm, !sim::chance(1, 4), 0}; prog[t].push_back(a); st.push_back(a); sim::ev("thread %u: enter %s", t, nm.c_str()); }
            else if (k == 1) { if (st.empty()) continue; Act a = st.back(); st.pop_back(); a.kind = 1; prog[t].push_back(a); sim::ev("thread %u: leave %s", t, a.name.c_str()); }
            else if (k == 2) { Act a{2, "", false, (int64_t)sim::choose_log(3000000000ll)}; prog[t].push_back(a); sim::count("simulated_us", a.ns / 1000); sim::ev("thread %u: %lld ns pass", t, (long long)a.ns); }
            else { Act a{3, "", false, (int64_t)sim::choose_log(86400ll * 1000000000ll)}; prog[t].push_back(a); sim::count("fault.wall_clock_set_back"); sim::ev("thread %u: the wall clock is set back by %lld ns", t, (long long)a.ns); }
        }
    }
    ck().on_read = [](int) { ++reads; ck().mono_ns += 40; ck().real_ns += 40; ck().cpu_ns += 25; };
    struct Span { std::string name; int64_t lo, hi; }; std::vector<std::vector<Span>> spans(T);
    std::vector<std::function<void()>> fs;
    for (unsigned t = 0; t < T; ++t) { spans[t].reserve(128); fs.push_back([&, t] {
        int64_t before[64], after[64]; unsigned d = 0;
        for (auto &a : prog[t]) switch (a.kind) {
        case 0: before[d] = ck().mono_ns; enter_block(a.name, a.indent); after[d] = ck().mono_ns; ++d; break;
        case 1: { --d; int64_t b = ck().mono_ns; leave_block(a.name, a.indent); spans[t].push_back({a.name, b - after[d], ck().mono_ns - before[d]}); break; }
        case 2: pass(a.ns); break;
        case 3: ck().real_ns -= a.ns; break;
        } }); }
    simrt::run_threads(fs); take(); ck().on_read = [](int) {};
    unsigned done = 0; std::map<std::string, size_t> inv; std::map<std::string, Span> last, cum;
    for (auto &v : spans) for (auto &s : v) { ++done; ++inv[s.name]; last[s.name] = s; auto &c = cum[s.name]; c.lo += s.lo; c.hi += s.hi; }
    if (off) inv.clear();
    if (invocation_counts != inv) { for (auto &k : inv) if (!invocation_counts.count(k.first) || invocation_counts[k.first] != k.second) sim::violate("invocation-count", "block %s was completed %zu times, recorded %zu", k.first.c_str(), k.second, invocation_counts[k.first]); sim::violate("invocation-count", "blocks are recorded that were never completed"); }
    if (!off) for (auto &k : inv) {
        auto chk = [&](const char *what, const Span &s, long long v) { sim::hash_event(v); if (v < s.lo || v > s.hi) sim::violate(what, "block %s: the clock showed %lld to %lld ns, recorded %lld ns", k.first.c_str(), (long long)s.lo, (long long)s.hi, v); };
        chk("last-time", last[k.first], last_times[k.first]); chk("cumulative-time", cum[k.first], cumulative_times[k.first]);
    }
    m.level = 0; check_level("all threads left their blocks");
    sim::count("blocks_entered_and_left", done); simrt::finish_counts(); sim::note_state(simrt::schedule_hash()); sim::hash_event(simrt::schedule_hash()); if (simrt::switches() > 1) sim::nontrivial();
}
#endif
void run() {
    static char buf[1 << 16]; fflush(stdout); cookie_io_functions_t io = {nullptr, on_write, nullptr, nullptr}; stdout = fopencookie(nullptr, "w", io); setvbuf(stdout, buf, _IOFBF, sizeof buf);
    ck().on_read = [](int) { ++reads; };
    ck().fail = [](int id) { return failing && (id == CLOCK_PROCESS_CPUTIME_ID || id == CLOCK_THREAD_CPUTIME_ID) ? EINVAL : 0; };
    ck().mono_ns = 1 + sim::choose_log(1000000000000000ll); ck().real_ns = sim::chance(1, 8) ? (int64_t)sim::choose_log(1000000000) : 1500000000ll * 1000000000ll; ck().cpu_ns = sim::choose_log(1000000000000ll);
    invocation_counts.clear(); last_times.clear(); cumulative_times.clear();
    names = {"alpha", "beta", "gamma block", "a name of more than forty-five characters, for the columns of the tables", "100%d %s", "delta", ""};
    // names that are alike: one the beginning of another, or the same but for the last character
    for (unsigned k = sim::choose(3); k--;) { std::string b(names[sim::choose(names.size())]); b.append(sim::choose_log(300), "axZ_"[sim::choose(4)]); names.push_back(b + "1"); names.push_back(b + "2"); if (!b.empty() && sim::chance(1, 2)) names.push_back(b); }
    std::sort(names.begin(), names.end()); names.erase(std::unique(names.begin(), names.end()), names.end());
#ifdef MULTICORE
    if (sim::chance(2, 3)) together(); else
#endif
    alone();
}
sim::Register reg({"P01", prepare, run});
}
