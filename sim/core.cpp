#include "core.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <algorithm>
#include <unordered_set>
#include <map>
#include <csignal>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <ctime>

namespace sim {

// Everything a run tells its parent lives in one shared mapping, so that it
// survives a crash of the run.
enum { MAXDEC = 1 << 18, MAXCNT = 160, LOGSZ = 1 << 18, MAXSTATES = 4096 };
struct Counter { char name[56]; uint64_t n; };
struct Shared {
    // in
    uint32_t nreplay; uint32_t replaying; uint64_t seed; uint64_t index;
    // out
    uint32_t ndec; uint32_t status;      // 0 running/crashed, 1 ok, 2 violation, 3 harness error
    uint32_t nontriv; uint32_t ncnt; uint32_t nlog; uint32_t nstates;
    uint64_t hash; uint64_t sig; uint64_t steps;
    char vclass[96]; char vmsg[1500];
    Counter cnt[MAXCNT];
    uint64_t states[MAXSTATES];
    char log[LOGSZ];
    uint64_t dec[MAXDEC];
    uint64_t replay[MAXDEC];
};
static Shared *S;
static Rng rng(0);
static uint32_t rpos;
bool verbose = false;
volatile uint64_t steps = 0, step_limit = ~0ull;
static std::string g_config = "default";
static int g_tier = 0;

static uint64_t record(uint64_t v) {
    if (S->ndec >= MAXDEC) harness_error("too many decisions");
    S->dec[S->ndec++] = v;
    return v;
}
uint64_t decisions() { return S->ndec; }
static uint64_t replayed() { return rpos < S->nreplay ? S->replay[rpos++] : 0; }

uint64_t choose(uint64_t bound) {
    if (bound <= 1) return 0;
    if (S->replaying) { uint64_t v = replayed(); return record(v < bound ? v : v % bound); }
    return record((uint64_t)(((__uint128_t)rng.next() * bound) >> 64));
}
uint64_t choose_log(uint64_t max) {
    if (max == 0) return 0;
    if (S->replaying) { uint64_t v = replayed(); return record(v <= max ? v : v % (max + 1)); }
    int bits = 64 - __builtin_clzll(max);
    int b = rng.next() % (bits + 1);
    uint64_t v = b == 0 ? 0 : (1ull << (b - 1)) | (rng.next() & ((1ull << (b - 1)) - 1));
    if (v > max) v = max;
    return record(v);
}
bool chance(unsigned num, unsigned den) {
    if (S->replaying) return record(replayed() ? 1 : 0);
    return record((rng.next() >> 11) % den < num ? 1 : 0);
}
unsigned choose_w(std::initializer_list<unsigned> w) {
    if (S->replaying) { uint64_t v = replayed(); return (unsigned)record(v % w.size()); }
    uint64_t tot = 0; for (unsigned x : w) tot += x;
    uint64_t r = (rng.next() >> 11) % tot; unsigned i = 0;
    for (unsigned x : w) { if (r < x) break; r -= x; ++i; }
    return (unsigned)record(i);
}
uint64_t word() { if (S->replaying) return record(replayed()); return record(rng.next()); }
uint64_t word32() { if (S->replaying) return record(replayed() & 0xffffffffu); return record(rng.next() & 0xffffffffu); }

static uint64_t H = 1469598103934665603ull;
void hash_event(uint64_t a) { H = (H ^ a) * 1099511628211ull; H ^= H >> 29; }
void hash_bytes(const void *p, size_t n) { hash_event(fnv(p, n)); }
uint64_t event_hash() { return H; }
void ev(const char *fmt, ...) {
    char buf[512]; va_list ap; va_start(ap, fmt);
    int n = vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    if (n >= (int)sizeof buf) n = sizeof buf - 1;
    hash_bytes(buf, n);
    if (verbose && S->nlog + n + 1 < LOGSZ) {
        memcpy(S->log + S->nlog, buf, n); S->nlog += n; S->log[S->nlog++] = '\n';
    }
}
static void finish(int status) {
    S->hash = H; if (!S->sig) S->sig = H; S->steps = steps; S->status = status;
    _exit(status == 1 ? 0 : 70 + status);
}
void violate(const char *vclass, const char *fmt, ...) {
    va_list ap; va_start(ap, fmt); vsnprintf(S->vmsg, sizeof S->vmsg, fmt, ap); va_end(ap);
    snprintf(S->vclass, sizeof S->vclass, "%s", vclass);
    step_limit = ~0ull;
    hash_bytes(vclass, strlen(vclass));
    finish(2); __builtin_unreachable();
}
void harness_error(const char *fmt, ...) {
    va_list ap; va_start(ap, fmt); vsnprintf(S->vmsg, sizeof S->vmsg, fmt, ap); va_end(ap);
    snprintf(S->vclass, sizeof S->vclass, "harness-error");
    finish(3); __builtin_unreachable();
}
void count(const char *name, uint64_t n) {
    for (uint32_t i = 0; i < S->ncnt; ++i) if (!strcmp(S->cnt[i].name, name)) { S->cnt[i].n += n; return; }
    if (S->ncnt < MAXCNT) { snprintf(S->cnt[S->ncnt].name, sizeof S->cnt[0].name, "%s", name); S->cnt[S->ncnt].n = n; ++S->ncnt; }
}
void nontrivial() { S->nontriv = 1; }
void set_signature(uint64_t h) { S->sig = h ? h : 1; }
void note_state(uint64_t h) { if (S->nstates < MAXSTATES) S->states[S->nstates++] = h; }
uint64_t run_index() { return S->index; }
const char *config_name() { return g_config.c_str(); }
int tier() { return g_tier; }

static std::vector<Check> &checks() { static std::vector<Check> c; return c; }
void register_check(const Check &c) { checks().push_back(c); }

// ------------------------------------------------------------------ running
struct Outcome {
    int status; std::string vclass, vmsg; uint64_t hash; std::vector<uint64_t> dec; std::string log;
};
static uint64_t g_seed = 1;
static unsigned g_watchdog = 60;   // wall-clock backstop per run, seconds
static const Check *C;

static uint64_t mix(uint64_t a, uint64_t b) { Rng r(a * 0x9E3779B97F4A7C15ull ^ b); r.next(); return r.next(); }

static void child_main() {
    rng = Rng(mix(g_seed ^ fnv(g_config), S->index)); rpos = 0;
    H = 1469598103934665603ull; steps = 0; step_limit = ~0ull;
    C->run();
    finish(1);
}
static void run_once(uint64_t index, const std::vector<uint64_t> *replay, bool want_log) {
    S->index = index; S->ndec = 0; S->status = 0; S->nontriv = 0; S->ncnt = 0; S->nlog = 0; S->nstates = 0;
    S->hash = 0; S->sig = 0; S->vclass[0] = S->vmsg[0] = 0; S->steps = 0;
    S->replaying = replay != nullptr; S->nreplay = 0;
    if (replay) { S->nreplay = std::min<size_t>(replay->size(), MAXDEC); memcpy(S->replay, replay->data(), 8 * S->nreplay); }
    verbose = want_log;
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (p < 0) { perror("fork"); exit(2); }
    if (p == 0) { alarm(g_watchdog); child_main(); }
    int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (S->status == 0) {   // the run ended without telling: a crash
        S->status = 2; S->hash = 0; S->sig = 1;
        if (WIFSIGNALED(st)) {
            if (WTERMSIG(st) == SIGKILL) { S->status = 3; snprintf(S->vclass, sizeof S->vclass, "harness-error"); snprintf(S->vmsg, sizeof S->vmsg, "run killed"); }
            else if (WTERMSIG(st) == SIGALRM) { snprintf(S->vclass, sizeof S->vclass, "no-progress"); snprintf(S->vmsg, sizeof S->vmsg, "wall-clock backstop of %u s", g_watchdog); }
            else { snprintf(S->vclass, sizeof S->vclass, "crash"); snprintf(S->vmsg, sizeof S->vmsg, "process ended by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st))); }
        } else { snprintf(S->vclass, sizeof S->vclass, "crash"); snprintf(S->vmsg, sizeof S->vmsg, "process exited with code %d (99: AddressSanitizer)", WEXITSTATUS(st)); }
    }
}
static Outcome outcome() {
    Outcome o; o.status = S->status; o.vclass = S->vclass; o.vmsg = S->vmsg; o.hash = S->hash;
    o.dec.assign(S->dec, S->dec + S->ndec); o.log.assign(S->log, S->nlog); return o;
}
static double now() { timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

static bool same(const std::vector<uint64_t> &d, const std::string &vclass, uint64_t index, std::vector<uint64_t> *used) {
    run_once(index, &d, false);
    if (S->status == 2 && vclass == S->vclass) { if (used) used->assign(S->dec, S->dec + S->ndec); return true; }
    return false;
}
static std::vector<uint64_t> minimise(std::vector<uint64_t> d, const std::string &vc, uint64_t index, double limit, unsigned &tried) {
    double end = now() + limit; tried = 0;
    auto attempt = [&](std::vector<uint64_t> c) {
        if (now() > end) return false;
        ++tried;
        while (!c.empty() && c.back() == 0) c.pop_back();
        std::vector<uint64_t> used;
        if (!same(c, vc, index, &used)) return false;
        while (!used.empty() && used.back() == 0) used.pop_back();
        if (used.size() < c.size()) c = used;   // decisions after the violation were never made
        bool better = c.size() < d.size() || (c.size() == d.size() && c < d);
        if (better) d = c;
        return better;
    };
    for (bool again = true; again && now() < end;) {
        again = false;
        for (size_t len = std::max<size_t>(1, d.size() / 2); len >= 1; len /= 2) {
            for (size_t i = 0; i + len <= d.size() && now() < end;) {
                std::vector<uint64_t> c(d); c.erase(c.begin() + i, c.begin() + i + len);
                if (attempt(c)) { again = true; continue; }
                c = d; bool any = false;
                for (size_t k = i; k < i + len; ++k) { any |= c[k] != 0; c[k] = 0; }
                if (any && attempt(c)) { again = true; continue; }
                i += len;
            }
            if (len == 1) break;
        }
        for (size_t i = 0; i < d.size() && now() < end; ++i)
            for (int k = 0; k < 64 && i < d.size() && d[i] > 1; ++k) {
                std::vector<uint64_t> c(d); c[i] = d[i] / 2; if (attempt(c)) { again = true; continue; }
                c = d; c[i] = d[i] - 1; if (attempt(c)) { again = true; continue; }
                break;
            }
    }
    return d;
}
static std::string jstr(const std::string &s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}
static std::string declist(const std::vector<uint64_t> &d) {
    std::string r = "["; for (size_t i = 0; i < d.size(); ++i) { if (i) r += ","; r += std::to_string(d[i]); } return r + "]";
}

static int do_replay(const char *file) {
    FILE *f = fopen(file, "r"); if (!f) { perror(file); return 2; }
    std::string txt; char buf[4096]; size_t n; while ((n = fread(buf, 1, sizeof buf, f)) > 0) txt.append(buf, n); fclose(f);
    size_t a = txt.find("\"decisions\""); if (a == std::string::npos) return 2;
    a = txt.find('[', a); std::vector<uint64_t> d;
    for (const char *p = txt.c_str() + a + 1; *p && *p != ']';) {
        char *e; uint64_t v = strtoull(p, &e, 10); if (e == p) { ++p; continue; } d.push_back(v); p = e; if (*p == ',') ++p;
    }
    auto num = [&](const char *k) { size_t b = txt.find(std::string("\"") + k + "\""); if (b == std::string::npos) return (uint64_t)0; b = txt.find(':', b); return (uint64_t)strtoull(txt.c_str() + b + 1, nullptr, 10); };
    uint64_t index = num("run_index");
    if (C->determined && txt.find("\"nondeterministic\"") != std::string::npos) {      // the violation is that two runs of one history differ
        run_once(index, &d, true); Outcome a = outcome(); bool differ = false;
        for (int k = 0; k < 1000 && !differ; ++k) { run_once(index, &d, true); Outcome b = outcome(); differ = a.hash != b.hash || a.status != b.status; }
        printf("%s", a.log.c_str());
        printf("REPLAY status=%s class=%s hash=0\n%s\n", differ ? "violation" : "ok", differ ? "nondeterministic" : "", C->determined);
        return differ ? 1 : 0;
    }
    run_once(index, &d, true);
    Outcome o = outcome();
    printf("%s", o.log.c_str());
    printf("REPLAY status=%s class=%s hash=%llu\n%s\n", o.status == 2 ? "violation" : o.status == 1 ? "ok" : "error", o.vclass.c_str(), (unsigned long long)o.hash, o.vmsg.c_str());
    return o.status == 2 ? 1 : o.status == 1 ? 0 : 2;
}

static int sim_main(int argc, char **argv) {
    std::string prop, out = "/dev/stdout", replay, dump;
    uint64_t runs = 1000, first = 0; unsigned jobs = 8; double tlimit = 60, mlimit = 20; 
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i]; auto val = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--property") prop = val(); else if (a == "--seed") g_seed = strtoull(val().c_str(), 0, 10);
        else if (a == "--runs") runs = strtoull(val().c_str(), 0, 10); else if (a == "--first") first = strtoull(val().c_str(), 0, 10);
        else if (a == "--jobs") jobs = atoi(val().c_str()); else if (a == "--time") tlimit = atof(val().c_str());
        else if (a == "--mintime") mlimit = atof(val().c_str());
        else if (a == "--out") out = val(); else if (a == "--config") g_config = val(); else if (a == "--replay") replay = val();
        else if (a == "--dump") dump = val();
        else if (a == "--tier") g_tier = val() == "thorough"; else if (a == "--watchdog") g_watchdog = atoi(val().c_str());
        else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 2; }
    }
    for (auto &c : checks()) if (prop == c.id) C = &c;
    if (!C) { fprintf(stderr, "no check %s in this binary\n", prop.c_str()); return 2; }
    auto mkshared = [] {
        void *m = mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        if (m == MAP_FAILED) { perror("mmap"); exit(2); }
        return (Shared *)m;
    };
    S = mkshared();
    S->replaying = 0;
    rng = Rng(mix(g_seed, 0xfeed));
    if (C->prepare) C->prepare(argc, argv);
    S->ndec = 0;
    if (!replay.empty()) return do_replay(replay.c_str());

    double t0 = now();
    struct Agg { volatile uint64_t stop_at; };
    Agg *agg = (Agg *)mmap(0, sizeof(Agg), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    agg->stop_at = ~0ull;
    std::vector<pid_t> pids; std::vector<std::string> parts;
    for (unsigned w = 0; w < jobs; ++w) {
        std::string part = out + ".w" + std::to_string(w); parts.push_back(part);
        pid_t p = fork();
        if (p == 0) {
            S = mkshared();
            int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); if (!getenv("SIM_STDERR")) dup2(fd, 2);
            std::map<std::string, uint64_t> cnt; std::unordered_set<uint64_t> sigs, states;
            unsigned flaky = 0; uint64_t nrun = 0, nnon = 0, det = 0, nsteps = 0; std::string sample; std::string verdict = "ok"; std::string vj; uint64_t vindex = 0;
            FILE *df = dump.empty() ? nullptr : fopen((dump + ".w" + std::to_string(w)).c_str(), "w");
            auto undetermined = [&](uint64_t i, const Outcome &o) {     // two runs of one history differ, and the property says they must not
                verdict = "violation"; vindex = i; if (agg->stop_at > i) agg->stop_at = i;
                vj = "{\"property\":" + jstr(prop) + ",\"config\":" + jstr(g_config) + ",\"seed\":" + std::to_string(g_seed) + ",\"run_index\":" + std::to_string(i) +
                    ",\"class\":\"nondeterministic\",\"message\":" + jstr(C->determined) + ",\"hash\":0,\"original_decisions\":" + std::to_string(o.dec.size()) + ",\"minimiser_runs\":0" +
                    ",\"decisions\":" + declist(o.dec) + ",\"trace\":" + jstr(o.log) + "}";
            };
            for (uint64_t i = first + w; i < first + runs; i += jobs) {
                if (now() - t0 > tlimit || agg->stop_at < i) break;
                run_once(i, nullptr, nrun == 0);
                Outcome o = outcome();
                ++nrun; nsteps += S->steps; if (S->nontriv && S->sig) { ++nnon; sigs.insert(S->sig); }
                for (uint32_t k = 0; k < S->ncnt; ++k) cnt[S->cnt[k].name] += S->cnt[k].n;
                for (uint32_t k = 0; k < S->nstates && states.size() < (1u << 21); ++k) states.insert(S->states[k]);
                if (df) fprintf(df, "%llu %llu %u\n", (unsigned long long)i, (unsigned long long)o.hash, o.status);
                if (nrun == 1) sample = o.log.substr(0, 1200);
                if (o.status == 1 && i < first + 8 * 6) {        // determinism gate: same seed, and its own replay
                    run_once(i, nullptr, false); ++det;
                    bool ok = S->status == 1 && S->hash == o.hash;
                    if (ok) { run_once(i, &o.dec, false); ok = S->status == 1 && S->hash == o.hash; }
                    if (!ok && C->determined) { undetermined(i, o); break; }
                    if (!ok) { verdict = "error"; vj = "nondeterministic run " + std::to_string(i) + ": " + std::to_string(o.hash) + " vs " + std::to_string(S->hash) + " " + S->vclass + " " + S->vmsg; break; }
                }
                if (o.status == 3) { verdict = "error"; vj = o.vmsg + " (run " + std::to_string(i) + ")"; break; }
                if (o.status == 2) {
                    // gate: same decisions reproduce the same class
                    std::vector<uint64_t> used; unsigned okc = 0;
                    for (int k = 0; k < 2; ++k) okc += same(o.dec, o.vclass, i, &used);
                    if (okc < 2 && C->determined) { undetermined(i, o); break; }
                    if (okc < 2) { verdict = "error"; vj = "violation did not reproduce: run " + std::to_string(i) + " " + o.vclass + ": " + o.vmsg; if (++flaky < 20) continue; break; }
                    if (agg->stop_at > i) agg->stop_at = i;
                    unsigned tried = 0;
                    std::vector<uint64_t> m = minimise(o.dec, o.vclass, i, mlimit, tried);
                    run_once(i, &m, true);
                    Outcome mo = outcome();
                    if (C->determined && (mo.status != 2 || mo.vclass != o.vclass)) { undetermined(i, o); break; }
                    verdict = "violation"; vindex = i;
                    vj = "{\"property\":" + jstr(prop) + ",\"config\":" + jstr(g_config) + ",\"seed\":" + std::to_string(g_seed) + ",\"run_index\":" + std::to_string(i) +
                        ",\"class\":" + jstr(mo.vclass) + ",\"message\":" + jstr(mo.vmsg) + ",\"hash\":" + std::to_string(mo.hash) +
                        ",\"original_decisions\":" + std::to_string(o.dec.size()) + ",\"minimiser_runs\":" + std::to_string(tried) +
                        ",\"decisions\":" + declist(m) + ",\"trace\":" + jstr(mo.log) + "}";
                    break;
                }
            }
            if (df) fclose(df);
            FILE *f = fopen(part.c_str(), "w");
            fprintf(f, "{\"runs\":%llu,\"nontrivial\":%llu,\"determinism_runs\":%llu,\"steps\":%llu,\"verdict\":%s,\"vindex\":%llu,", (unsigned long long)nrun, (unsigned long long)nnon, (unsigned long long)det, (unsigned long long)nsteps, jstr(verdict).c_str(), (unsigned long long)vindex);
            fprintf(f, "\"detail\":%s,", verdict == "violation" ? vj.c_str() : jstr(vj).c_str());
            fprintf(f, "\"sample\":%s,\"counters\":{", jstr(sample).c_str());
            bool c1 = false; for (auto &k : cnt) { fprintf(f, "%s%s:%llu", c1 ? "," : "", jstr(k.first).c_str(), (unsigned long long)k.second); c1 = true; }
            fprintf(f, "},\"wall\":%.3f}\n", now() - t0);
            fclose(f);
            FILE *g = fopen((part + ".sig").c_str(), "w");
            for (auto x : sigs) fwrite(&x, 8, 1, g); fclose(g);
            g = fopen((part + ".st").c_str(), "w");
            for (auto x : states) fwrite(&x, 8, 1, g); fclose(g);
            _exit(0);
        }
        pids.push_back(p);
    }
    bool bad = false;
    for (pid_t p : pids) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) bad = true; }
    std::unordered_set<uint64_t> sigs, states;
    auto load = [](const std::string &fn, std::unordered_set<uint64_t> &s) {
        FILE *f = fopen(fn.c_str(), "r"); if (!f) return; uint64_t x; while (fread(&x, 8, 1, f) == 1) s.insert(x); fclose(f); unlink(fn.c_str());
    };
    FILE *o = fopen(out.c_str(), "w"); fprintf(o, "{\"workers\":[");
    for (size_t i = 0; i < parts.size(); ++i) {
        FILE *f = fopen(parts[i].c_str(), "r"); if (!f) { bad = true; continue; }
        char buf[65536]; size_t n; if (i) fputc(',', o); while ((n = fread(buf, 1, sizeof buf, f)) > 0) fwrite(buf, 1, n, o); fclose(f); unlink(parts[i].c_str());
        load(parts[i] + ".sig", sigs); load(parts[i] + ".st", states);
    }
    fprintf(o, "],\"distinct\":%zu,\"states\":%zu,\"bad\":%s,\"wall\":%.3f}\n", sigs.size(), states.size(), bad ? "true" : "false", now() - t0);
    fclose(o);
    return bad ? 2 : 0;
}
} // namespace sim

int main(int argc, char **argv) {
    if (!getenv("SIM_NOREEXEC")) {
        // no address-space randomisation: a run is the same in every process
        int p = personality(0xffffffff);
        if (p != -1 && !(p & ADDR_NO_RANDOMIZE) && personality(p | ADDR_NO_RANDOMIZE) != -1) {
            setenv("SIM_NOREEXEC", "1", 1); execv("/proc/self/exe", argv);
        }
    }
    return sim::sim_main(argc, argv);
}

extern "C" void __sanitizer_cov_trace_pc(void) {
    if (++sim::steps > sim::step_limit) {
        uint64_t l = sim::step_limit; sim::step_limit = ~0ull;
        sim::violate("no-progress", "work exceeded the budget (%llu steps)", (unsigned long long)l);
    }
}
