// See simrt.hpp.  Built without instrumentation.
#include "simrt.hpp"
#include <atomic>
#include <cerrno>
#include <climits>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <deque>
#include <cstdarg>
#include <dlfcn.h>
#include <linux/futex.h>
#include <malloc.h>
#include <map>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <sys/time.h>
#include <sys/times.h>
#include <unistd.h>

// the runtime's own memory work must not pass through the reporting versions below
static inline void *rt_set(void *d, int c, size_t n) { void *r = d; asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory"); return r; }
static inline void *rt_copy(void *d, const void *s, size_t n) { void *r = d; asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); return r; }
#define PC() ((uintptr_t)__builtin_return_address(0))
namespace simrt {
enum { MAXT = 160, CELLS = 4 };
typedef uint32_t Clk;
struct VC { Clk c[MAXT]; };
static void join(VC &a, const VC &b) { for (int i = 0; i < MAXT; ++i) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }

struct Team;
struct Thread {
    int id; std::atomic<int> go; VC vc; bool done = false, idle = false; pthread_t real;
    bool (*ready)(void *) = nullptr; void *ready_arg = nullptr; const char *why = "";
    std::function<void()> fn; int64_t prio = 0;
    // OpenMP
    Team *team = nullptr; int team_id = 0; unsigned ws_seq = 0; std::vector<Thread *> pool; unsigned level = 0; int want = 0;
    void *retval = nullptr; void *(*pfn)(void *) = nullptr; void *parg = nullptr; bool user = false;
};
struct WS { bool init = false; long next = 0, end = 0, incr = 1, chunk = 1; int kind = 0; bool up = true; unsigned done = 0; bool single_taken = false; void *copy = nullptr; bool copied = false; VC vc; unsigned long long unext = 0, uend = 0, uincr = 1, uchunk = 1; unsigned picked = 0; };
struct Team { unsigned n; void (*fn)(void *); void *data; std::vector<Thread *> members; std::map<unsigned, WS> ws; unsigned arrived = 0, gen = 0; VC bar; VC bar_out; unsigned live = 0; Team *outer = nullptr; };

static Thread *threads[MAXT]; static int nthreads = 0; static Thread *cur = nullptr;
static bool active = false;            // more than one thread alive
static int64_t quantum = INT64_MAX;
static uint64_t g_switches = 0, g_acc = 0, g_hash = 1469598103934665603ull, g_regions = 0, g_preempts = 0, g_blocked = 0, g_fewer = 0;
static Options opt;
static unsigned policy = 0, qlog = 0, syncp = 0, max_preempt = 0; static uint64_t changes_left = 0;
static int64_t lowest = 0;

static void hmix(uint64_t x) { g_hash = (g_hash ^ x) * 1099511628211ull; g_hash ^= g_hash >> 31; }
static long futex(std::atomic<int> *w, int op, int v) { return syscall(SYS_futex, w, op, v, nullptr, nullptr, 0); }

static void ensure_main() {
    if (nthreads) return;
    Thread *t = new Thread(); t->id = 0; t->go = 0; rt_set(&t->vc, 0, sizeof t->vc); t->vc.c[0] = 1; t->real = pthread_self();
    threads[nthreads++] = t; cur = t;
}
// a run that has used up most of its decisions goes on in turns, without drawing more
static bool spent() { return sim::decisions() > 200000; }
static unsigned turn = 0;
static void draw_quantum() {
    if (spent()) { quantum = 20000; return; }
    if (g_preempts >= max_preempt || qlog == 0) { quantum = INT64_MAX; return; }
    quantum = 1 + (int64_t)sim::choose_log((1ull << qlog) - 1);
}
void configure(const Options &o) {
    ensure_main(); opt = o;
    policy = sim::choose_w({5, 3, 2});                      // uniform, priorities, run to completion
    static const unsigned ql[] = {0, 20, 16, 12, 8, 5};
    qlog = policy == 2 ? 0 : ql[sim::choose(6)];
    syncp = sim::choose(3);                                  // switch at synchronisations: 1/2, always, 1/8
    static const unsigned mp[] = {3, 12, 60, 300};
    max_preempt = mp[sim::choose(4)];
    draw_quantum();
    paint(sim::choose(6));
    // one CPU for the whole run: handing over is then cheapest
    cpu_set_t s; if (sched_getaffinity(0, sizeof s, &s) == 0 && CPU_COUNT(&s) > 1) {
        int k = sim::run_index() % CPU_COUNT(&s), n = 0; cpu_set_t one; CPU_ZERO(&one);
        for (int i = 0; i < CPU_SETSIZE; ++i) if (CPU_ISSET(i, &s)) { if (n++ == k) CPU_SET(i, &one); }
        sched_setaffinity(0, sizeof one, &one);
    }
}

// --------------------------------------------------------------- scheduling
static void hand_over(Thread *to) {
    Thread *me = cur;
    if (to == me) return;
    ++g_switches; hmix(((uint64_t)to->id << 56) ^ g_acc);
    cur = to;
    to->go.store(1, std::memory_order_release); futex(&to->go, FUTEX_WAKE_PRIVATE, 1);
}
static void wait_turn(Thread *me) {
    while (me->go.load(std::memory_order_acquire) == 0) futex(&me->go, FUTEX_WAIT_PRIVATE, 0);
    me->go.store(0, std::memory_order_relaxed);
}
static bool runnable(Thread *t) { return !t->done && !t->idle && (!t->ready || t->ready(t->ready_arg)); }
static void count_alive() { int n = 0; for (int i = 0; i < nthreads; ++i) if (!threads[i]->done && !threads[i]->idle) ++n; active = n > 1; }

// Chooses who goes on.  The current thread is first among the candidates if it can.
static Thread *pick_next(bool voluntary) {
    Thread *c[MAXT]; int n = 0; bool me = runnable(cur);
    if (me) c[n++] = cur;
    for (int i = 0; i < nthreads; ++i) if (threads[i] != cur && runnable(threads[i])) c[n++] = threads[i];
    if (n == 0) {
        std::string s; for (int i = 0; i < nthreads; ++i) if (!threads[i]->done && !threads[i]->idle) { s += " thread " + std::to_string(i) + " waits for " + threads[i]->why + ";"; }
        sim::violate("deadlock", "no thread can go on:%s", s.c_str());
    }
    if (n == 1) return c[0];
    if (policy == 1) {      // highest priority first; a preemption lowers the running thread
        if (me && !voluntary) cur->prio = --lowest;
        Thread *b = c[0]; for (int i = 1; i < n; ++i) if (c[i]->prio > b->prio) b = c[i];
        return b;
    }
    if (policy == 2 && me) return cur;
    if (spent()) return c[++turn % n];
    return c[sim::choose(n)];
}
static void reschedule(bool voluntary) {
    Thread *me = cur; Thread *to = pick_next(voluntary);
    if (to != me) { hand_over(to); wait_turn(me); }
}
static void preempt() { ++g_preempts; draw_quantum(); if (active) reschedule(false); }
static void sync_point() {
    if (!active) return;
    if (spent()) return;
    bool sw = syncp == 1 ? true : policy == 2 ? false : sim::chance(1, syncp == 0 ? 2 : 8);
    if (sw && policy != 2) reschedule(true);
}
static void block(bool (*ready)(void *), void *arg, const char *why) {
    Thread *me = cur; me->ready = ready; me->ready_arg = arg; me->why = why;
    if (!ready(arg)) { ++g_blocked; Thread *to = pick_next(true); if (to != me) { hand_over(to); wait_turn(me); } }
    me->ready = nullptr;
}
static void release(VC &to) { join(to, cur->vc); ++cur->vc.c[cur->id]; }
static void acquire(const VC &from) { join(cur->vc, from); }

static void start_thread(Thread *t, void *(*entry)(void *)) {
    pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 1 << 20);
    typedef int (*PC_t)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
    static PC_t real = (PC_t)dlsym(RTLD_NEXT, "pthread_create");
    if (real(&t->real, &a, entry, t)) sim::harness_error("cannot create a thread");
    pthread_attr_destroy(&a);
}
static Thread *new_thread() {
    if (nthreads >= MAXT) sim::harness_error("too many simulated threads");
    Thread *t = new Thread(); t->id = nthreads; t->go = 0; rt_set(&t->vc, 0, sizeof t->vc); t->vc.c[t->id] = 1; t->prio = (policy == 1) ? (int64_t)sim::choose(1000) : 0;
    threads[nthreads++] = t; return t;
}
static void *plain_entry(void *p) {
    Thread *t = (Thread *)p; wait_turn(t);
    t->fn();
    ++t->vc.c[t->id]; t->done = true; count_alive();
    Thread *to = pick_next(true); hand_over(to);
    for (;;) pause();       // the real thread stays until the run ends
}
void run_threads(const std::vector<std::function<void()>> &fs) {
    ensure_main();
    std::vector<Thread *> ts; ts.reserve(fs.size());
    for (auto &f : fs) { Thread *t = new_thread(); t->fn = f; join(t->vc, cur->vc); t->user = true; ts.push_back(t); }
    ++cur->vc.c[cur->id];
    for (Thread *t : ts) start_thread(t, plain_entry);
    count_alive();
    struct W { std::vector<Thread *> *ts; } w{&ts};
    block([](void *a) { for (Thread *t : *((W *)a)->ts) if (!t->done) return false; return true; }, &w, "its threads");
    for (Thread *t : ts) acquire(t->vc);
    count_alive();
}
uint64_t switches() { return g_switches; }
uint64_t accesses() { return g_acc; }
uint64_t schedule_hash() { return g_hash; }
uint64_t regions() { return g_regions; }
int self() { return cur ? cur->id : 0; }
void finish_counts() {
    sim::count("context_switches", g_switches); sim::count("fault.preemption", g_preempts); sim::count("accesses_checked_for_races", g_acc); sim::count("parallel_regions", g_regions);
    sim::count("blocked_waits", g_blocked); sim::count("fault.fewer_threads_delivered", g_fewer);
    sim::count("simulated_threads", nthreads > 0 ? nthreads - 1 : 0);
}

// ------------------------------------------------------------ race detector
// A cell: pc(26) clock(24) mask(8) write(1) tid(5... 6)
struct Granule { uint64_t c[CELLS]; };
static inline uint64_t mk(int tid, bool w, unsigned mask, Clk clk, uintptr_t pc, bool atomic) {
    uintptr_t off = pc >= 0x400000 ? pc - 0x400000 : 0; if (off >= (1u << 25)) off = 0;
    return (uint64_t)tid | (uint64_t)w << 6 | (uint64_t)atomic << 7 | (uint64_t)mask << 8 | (uint64_t)(clk & 0x7fffff) << 16 | (uint64_t)off << 39;
}
enum { PAGEBITS = 12, GPP = 1 << (PAGEBITS - 3), TBL = 1 << 16 };
struct PageEnt { uintptr_t page; Granule *g; };
static PageEnt *table; static unsigned npages = 0;
static struct { uintptr_t page; Granule *g; } pcache[256];
static Granule *page_slow(uintptr_t page, bool create);
static inline Granule *page_of(uintptr_t page, bool create) {
    auto &c = pcache[page & 255]; if (c.page == page && c.g) return c.g;
    Granule *g = page_slow(page, create); if (g) { c.page = page; c.g = g; } return g;
}
static Granule *page_slow(uintptr_t page, bool create) {
    if (!table) { if (!create) return nullptr; table = (PageEnt *)mmap(0, TBL * sizeof(PageEnt), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
    size_t h = (page * 0x9E3779B97F4A7C15ull) >> 48;
    while (table[h].page && table[h].page != page) h = (h + 1) & (TBL - 1);
    if (!table[h].page) {
        if (!create) return nullptr;
        if (++npages > TBL / 2) sim::harness_error("race detector: too many pages");
        table[h].page = page; table[h].g = (Granule *)mmap(0, GPP * sizeof(Granule), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    }
    return table[h].g;
}
static std::string where(uintptr_t pc) {
    if (!pc) return "a library call";
    Dl_info i; if (dladdr((void *)(pc - 1), &i) && i.dli_sname) {
        int st; char *d = abi::__cxa_demangle(i.dli_sname, 0, 0, &st); std::string s = d ? d : i.dli_sname; free(d);
        // drop template arguments
        std::string r; int depth = 0; for (char c : s) { if (c == '<') ++depth; else if (c == '>' && depth) --depth; else if (!depth) r += c; if (r.size() > 90) break; }
        return r;
    }
    char b[32]; snprintf(b, sizeof b, "%#lx", (unsigned long)pc); return b;
}
static void report(uintptr_t a, uint64_t old, bool w, uintptr_t pc, bool atomic) {
    uintptr_t opc = old >> 39; if (opc) opc += 0x400000;
    sim::violate("data-race", "thread %d %s%s in %s; thread %d %s%s in %s without ordering", cur->id, atomic ? "atomically " : "", w ? "writes" : "reads", where(pc).c_str(), (int)(old & 63), (old >> 7 & 1) ? "atomically " : "", (old >> 6 & 1) ? "wrote" : "read", where(opc).c_str());
    (void)a;
}
static inline void granule(uintptr_t a, unsigned mask, bool w, uintptr_t pc, bool atomic) {
    Granule &g = page_of(a >> PAGEBITS, true)[(a >> 3) & (GPP - 1)];
    int tid = cur->id; uint64_t mine = mk(tid, w, mask, cur->vc.c[tid], pc, atomic);
    { uint64_t c = g.c[0]; if (!((c ^ mine) & 0x7fffff007full) && (mask & ~(unsigned)(c >> 8) & 0xff) == 0 && !(c >> 7 & 1)) return; }      // the same access again
    int slot = -1, empty = -1;
    for (int i = 0; i < CELLS; ++i) {
        uint64_t c = g.c[i];
        if (!c) { if (empty < 0) empty = i; continue; }
        unsigned cm = (c >> 8) & 0xff; int ct = c & 63; bool cw = c >> 6 & 1, ca = c >> 7 & 1;
        if (ct == tid) { if ((cm & ~mask) == 0 && (w || !cw) && !(atomic && !ca)) slot = i; else if ((mask & ~cm) == 0 && cw == w && ca == atomic && ((c >> 16) & 0x7fffff) == (cur->vc.c[tid] & 0x7fffff)) { return; } continue; }
        if (!(cm & mask)) continue;
        bool hb = ((c >> 16) & 0x7fffff) <= cur->vc.c[ct];
        if ((w || cw) && !hb && !(atomic && ca) && opt.races) report(a, c, w, pc, atomic);
        if (hb && w && (cm & ~mask) == 0) slot = slot < 0 ? i : slot;     // overwritten by an ordered write
    }
    if (slot < 0) slot = empty;
    if (slot < 0) slot = (int)((g_acc >> 2) & (CELLS - 1));
    g.c[slot] = mine;
}
static void range(uintptr_t a, size_t n, bool w, uintptr_t pc, bool atomic = false) {
    if (!n) return;
    uintptr_t e = a + n;
    while (a < e) {
        uintptr_t base = a & ~7ul; unsigned lo = a - base, hi = e - base < 8 ? e - base : 8;
        granule(base, ((1u << hi) - 1) & ~((1u << lo) - 1), w, pc, atomic);
        a = base + 8;
    }
}
static bool in_rt = false;
static inline void access(const void *p, size_t n, bool w, uintptr_t pc) {
    if (!active || in_rt) return;
    ++g_acc;
    if (++sim::steps > sim::step_limit) { sim::step_limit = ~0ull; sim::violate("no-progress", "work exceeded the budget of the run (a thread waits without blocking?)"); }
    range((uintptr_t)p, n, w, pc);
    if (--quantum <= 0) preempt();
}
void touch_read(const void *p, size_t n) { access(p, n, false, PC()); }
void touch_write(const void *p, size_t n) { access(p, n, true, PC()); }
static void forget(void *p, size_t n) {
    if (!table) return;
    uintptr_t a = (uintptr_t)p & ~7ul, e = ((uintptr_t)p + n + 7) & ~7ul;
    while (a < e) {
        Granule *g = page_of(a >> PAGEBITS, false);
        uintptr_t pe = ((a >> PAGEBITS) + 1) << PAGEBITS; if (pe > e) pe = e;
        if (g) rt_set((void *)&g[(a >> 3) & (GPP - 1)], 0, ((pe - a) >> 3) * sizeof(Granule));
        a = pe;
    }
}

static uint8_t paint_byte = 0; static bool painting = false;
void paint(unsigned p) { static const uint8_t b[] = {0, 0xff, 1, 0xa5, 0x80, 0x7f}; painting = p > 0; paint_byte = b[p % 6]; }
static void paint_new(void *p, size_t n) { if (painting) rt_set(p, paint_byte, n < 65536 ? n : 65536); }
__attribute__((noinline)) void paint_stack() { if (!painting) return; char room[40000]; rt_set(room, paint_byte, sizeof room); asm volatile("" : : "r"(room) : "memory"); }
bool inside() { return in_rt; }
void set_threads(unsigned n) { opt.max_threads = n; }
void forget_memory(void *p, size_t n) { forget(p, n); }

// ------------------------------------------------------------------- clocks
Clock &sim_clock() { static Clock c; return c; }

// ------------------------------------------------------------ sync variables
static std::map<uintptr_t, VC> &syncvars() { static std::map<uintptr_t, VC> *m = new std::map<uintptr_t, VC>(); return *m; }
static VC &syncvar(const void *p) { in_rt = true; auto it = syncvars().find((uintptr_t)p); if (it == syncvars().end()) { VC z; rt_set(&z, 0, sizeof z); it = syncvars().emplace((uintptr_t)p, z).first; } in_rt = false; return it->second; }
struct Mutex { Thread *owner = nullptr; unsigned depth = 0; int readers = 0; };
static std::map<uintptr_t, Mutex> &mutexes() { static auto *m = new std::map<uintptr_t, Mutex>(); return *m; }
static bool mutex_free(void *p) { return !((Mutex *)p)->owner && !((Mutex *)p)->readers; }
static bool mutex_nowriter(void *p) { return !((Mutex *)p)->owner; }
static Mutex &mutex_of(const void *p) { in_rt = true; Mutex &m = mutexes()[(uintptr_t)p]; in_rt = false; return m; }
static void lock(const void *p, const char *why, bool recursive = false) {
    ensure_main(); sync_point();
    Mutex &m = mutex_of(p);
    if (m.owner == cur && recursive) { ++m.depth; return; }
    if (!mutex_free(&m)) block(mutex_free, &m, why);
    m.owner = cur; m.depth = 1; acquire(syncvar(p));
}
static bool trylock(const void *p) { ensure_main(); sync_point(); Mutex &m = mutex_of(p); if (!mutex_free(&m)) return false; m.owner = cur; m.depth = 1; acquire(syncvar(p)); return true; }
static void unlock(const void *p) {
    Mutex &m = mutex_of(p); if (m.readers && !m.owner) { --m.readers; release(syncvar(p)); sync_point(); return; }
    if (m.depth > 1) { --m.depth; return; }
    release(syncvar(p)); m.owner = nullptr; m.depth = 0; sync_point();
}
// ------------------------------------------------------------------- OpenMP
static int g_default_team = 0;
static bool team_done(void *a) { return ((Team *)a)->live == 0; }
static void *pool_entry(void *p) {
    Thread *t = (Thread *)p;
    for (;;) {
        wait_turn(t);
        Team *tm = t->team; tm->fn(tm->data);
        ++t->vc.c[t->id]; --tm->live; t->idle = true; t->team = nullptr; count_alive();
        Thread *to = pick_next(true); hand_over(to);
    }
    return nullptr;
}
static void parallel(void (*fn)(void *), void *data, unsigned n) {
    ensure_main(); ++g_regions;
    Thread *me = cur;
    if (n == 0) n = me->want ? me->want : (g_default_team ? g_default_team : opt.max_threads);
    if (me->team && me->team->n > 1) n = 1;             // nested regions are serialised (the default)
    if (n > 1 && opt.may_deliver_fewer) { unsigned k = n - sim::choose(n); if (k < n) ++g_fewer; n = k; }
    if (n > 16) n = 16;
    Team tm; tm.n = n; tm.fn = fn; tm.data = data; tm.outer = me->team; rt_set(&tm.bar, 0, sizeof tm.bar); rt_set(&tm.bar_out, 0, sizeof tm.bar_out);
    int otid = me->team_id; unsigned ows = me->ws_seq;
    in_rt = true;
    tm.live = n - 1; tm.members.push_back(me);
    for (unsigned i = 1; i < n; ++i) {
        if (me->pool.size() < i) { Thread *t = new_thread(); t->idle = true; me->pool.push_back(t); start_thread(t, pool_entry); }
        Thread *t = me->pool[i - 1]; tm.members.push_back(t); t->team = &tm; t->team_id = i; t->ws_seq = 0; t->idle = false; t->level = me->level + 1; join(t->vc, me->vc);
    }
    in_rt = false;
    ++me->vc.c[me->id];
    me->team = &tm; me->team_id = 0; me->ws_seq = 0; ++me->level;
    count_alive();
    if (n > 1) sync_point();
    fn(data);
    if (tm.live) block(team_done, &tm, "its team");
    for (Thread *t : tm.members) if (t != me) acquire(t->vc);
    me->team = tm.outer; me->team_id = otid; me->ws_seq = ows; --me->level;
    count_alive();
}
struct BarWait { Team *t; unsigned gen; };
static void barrier() {
    Team *t = cur->team; if (!t || t->n == 1) return;
    join(t->bar, cur->vc); ++cur->vc.c[cur->id];
    BarWait w{t, t->gen};
    if (++t->arrived == t->n) { t->arrived = 0; ++t->gen; t->bar_out = t->bar; sync_point(); }
    else block([](void *a) { return ((BarWait *)a)->t->gen != ((BarWait *)a)->gen; }, &w, "a barrier");
    acquire(t->bar_out);
}
static WS solo_ws;
static WS &ws() { Team *t = cur->team; if (!t) { return solo_ws; } in_rt = true; WS &w = t->ws[cur->ws_seq]; if (!w.init) rt_set(&w.vc, 0, sizeof w.vc); in_rt = false; return w; }
static void ws_end() { if (cur->team) ++cur->ws_seq; else solo_ws = WS(); }
// all dynamic kinds hand out chunks; which thread gets which is the schedule
static bool loop_next(long *s, long *e) {
    sync_point(); WS &w = ws();
    if (w.kind == 1) {       // static with explicit calls: thread k takes chunks k, k+n, ...
        Team *t = cur->team; unsigned n = t ? t->n : 1, id = t ? cur->team_id : 0; 
        long total = w.incr > 0 ? (w.end - w.next + w.incr - 1) / w.incr : (w.next - w.end - w.incr - 1) / -w.incr; if (total < 0) total = 0;
        static __thread unsigned pos; static __thread unsigned seq; static __thread Team *st; 
        if (st != t || seq != cur->ws_seq || w.picked == 0) { pos = 0; st = t; seq = cur->ws_seq; w.picked = 1; }
        long ch = w.chunk > 0 ? w.chunk : (total + n - 1) / n; if (ch < 1) ch = 1;
        long i0 = (long)(pos * n + id) * ch; ++pos; if (i0 >= total) return false;
        long i1 = i0 + ch < total ? i0 + ch : total; *s = w.next + i0 * w.incr; *e = w.next + i1 * w.incr; return true;
    }
    if (w.incr > 0 ? w.next >= w.end : w.next <= w.end) return false;
    long ch = w.chunk > 0 ? w.chunk : 1;
    *s = w.next; long n = w.next + ch * w.incr; if (w.incr > 0 ? n > w.end : n < w.end) n = w.end; w.next = n; *e = n; return true;
}
static void loop_init(long s, long e, long incr, long chunk, int kind) { WS &w = ws(); if (!w.init) { w.init = true; w.next = s; w.end = e; w.incr = incr; w.chunk = chunk; w.kind = kind; } }
static bool loop_start(long s, long e, long incr, long chunk, int kind, long *is, long *ie) { ensure_main(); loop_init(s, e, incr, chunk, kind); return loop_next(is, ie); }
static bool uloop_next(unsigned long long *s, unsigned long long *e) {
    sync_point(); WS &w = ws();
    if (w.up ? w.unext >= w.uend : w.unext <= w.uend) return false;
    unsigned long long ch = w.uchunk ? w.uchunk : 1; *s = w.unext;
    if (w.up) { unsigned long long left = (w.uend - w.unext + w.uincr - 1) / w.uincr; w.unext = left <= ch ? w.uend : w.unext + ch * w.uincr; }
    else { unsigned long long d = 0 - w.uincr, left = (w.unext - w.uend + d - 1) / d; w.unext = left <= ch ? w.uend : w.unext - ch * d; }
    *e = w.unext; return true;
}
static bool uloop_start(bool up, unsigned long long s, unsigned long long e, unsigned long long incr, unsigned long long chunk, unsigned long long *is, unsigned long long *ie) {
    ensure_main(); WS &w = ws(); if (!w.init) { w.init = true; w.up = up; w.unext = s; w.uend = e; w.uincr = incr; w.uchunk = chunk; } return uloop_next(is, ie);
}
static unsigned sections_next() { long a, b; return loop_next(&a, &b) ? (unsigned)a : 0; }
} // namespace simrt
using namespace simrt;

// --------------------------------------------- calls of instrumented code
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(n) \
    void __tsan_read##n(void *p) { access(p, n, false, PC()); } \
    void __tsan_write##n(void *p) { access(p, n, true, PC()); } \
    void __tsan_unaligned_read##n(void *p) { access(p, n, false, PC()); } \
    void __tsan_unaligned_write##n(void *p) { access(p, n, true, PC()); } \
    void __tsan_volatile_read##n(void *p) { access(p, n, false, PC()); } \
    void __tsan_volatile_write##n(void *p) { access(p, n, true, PC()); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { access(p, n, false, PC()); }
void __tsan_write_range(void *p, size_t n) { access(p, n, true, PC()); }
void __tsan_vptr_update(void **p, void *) { access(p, 8, true, PC()); }
void __tsan_vptr_read(void **p) { access(p, 8, false, PC()); }
#define AT_BEGIN(p, n, w) if (active) { sync_point(); ++g_acc; range((uintptr_t)(p), n, w, PC(), true); }
static inline void at_sync(const void *p, int mo, bool acq, bool rel) {
    if (!active) return;
    if (acq && (mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST || mo == __ATOMIC_CONSUME)) acquire(syncvar(p));
    if (rel && (mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST)) release(syncvar(p));
}
#define ATOMIC(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T *p, int mo) { AT_BEGIN(p, sizeof(T), false) T v = *p; at_sync((void *)p, mo, true, false); return v; } \
    void __tsan_atomic##bits##_store(volatile T *p, T v, int mo) { AT_BEGIN(p, sizeof(T), true) at_sync((void *)p, mo, false, true); *p = v; } \
    T __tsan_atomic##bits##_exchange(volatile T *p, T v, int mo) { AT_BEGIN(p, sizeof(T), true) at_sync((void *)p, mo, true, true); T o = *p; *p = v; return o; } \
    T __tsan_atomic##bits##_fetch_add(volatile T *p, T v, int mo) { AT_BEGIN(p, sizeof(T), true) at_sync((void *)p, mo, true, true); T o = *p; *p = o + v; return o; } \
    T __tsan_atomic##bits##_fetch_sub(volatile T *p, T v, int mo) { AT_BEGIN(p, sizeof(T), true) at_sync((void *)p, mo, true, true); T o = *p; *p = o - v; return o; } \
    T __tsan_atomic##bits##_fetch_and(volatile T *p, T v, int mo) { AT_BEGIN(p, sizeof(T), true) at_sync((void *)p, mo, true, true); T o = *p; *p = o & v; return o; } \
    T __tsan_atomic##bits##_fetch_or(volatile T *p, T v, int mo) { AT_BEGIN(p, sizeof(T), true) at_sync((void *)p, mo, true, true); T o = *p; *p = o | v; return o; } \
    T __tsan_atomic##bits##_fetch_xor(volatile T *p, T v, int mo) { AT_BEGIN(p, sizeof(T), true) at_sync((void *)p, mo, true, true); T o = *p; *p = o ^ v; return o; } \
    T __tsan_atomic##bits##_fetch_nand(volatile T *p, T v, int mo) { AT_BEGIN(p, sizeof(T), true) at_sync((void *)p, mo, true, true); T o = *p; *p = ~(o & v); return o; } \
    bool __tsan_atomic##bits##_compare_exchange_strong(volatile T *p, T *e, T v, int mo, int) { AT_BEGIN(p, sizeof(T), true) at_sync((void *)p, mo, true, true); if (*p == *e) { *p = v; return true; } *e = *p; return false; } \
    bool __tsan_atomic##bits##_compare_exchange_weak(volatile T *p, T *e, T v, int mo, int) { AT_BEGIN(p, sizeof(T), true) at_sync((void *)p, mo, true, true); if (*p == *e) { *p = v; return true; } *e = *p; return false; } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T *p, T e, T v, int mo, int) { AT_BEGIN(p, sizeof(T), true) at_sync((void *)p, mo, true, true); T o = *p; if (o == e) *p = v; return o; }
ATOMIC(8, unsigned char) ATOMIC(16, unsigned short) ATOMIC(32, unsigned int) ATOMIC(64, unsigned long)
void __tsan_atomic_thread_fence(int) { if (active) { static char f; acquire(syncvar(&f)); release(syncvar(&f)); } }
void __tsan_atomic_signal_fence(int) {}

// static initialisation guards
int __cxa_guard_acquire(long long *gg) {
    unsigned char *g = (unsigned char *)gg;
    ensure_main();
    if (g[0]) { if (active) acquire(syncvar(g)); return 0; }
    sync_point();
    if (!g[0] && g[1]) block([](void *p) { unsigned char *g = (unsigned char *)p; return g[0] || !g[1]; }, g, "a static initialisation");
    if (g[0]) { acquire(syncvar(g)); return 0; }
    g[1] = 1; return 1;
}
void __cxa_guard_release(long long *gg) { unsigned char *g = (unsigned char *)gg; ensure_main(); if (active) release(syncvar(g)); else { join(syncvar(g), cur->vc); } g[0] = 1; g[1] = 0; sync_point(); }
void __cxa_guard_abort(long long *gg) { unsigned char *g = (unsigned char *)gg; g[1] = 0; sync_point(); }

// pthreads
#define REAL(name) static auto real = (decltype(&name))dlsym(RTLD_NEXT, #name)
static void *user_entry(void *p) {
    Thread *t = (Thread *)p; wait_turn(t);
    t->retval = t->pfn(t->parg);
    ++t->vc.c[t->id]; t->done = true; count_alive(); hand_over(pick_next(true)); for (;;) pause();
}
int pthread_create(pthread_t *h, const pthread_attr_t *, void *(*f)(void *), void *arg) {
    ensure_main(); Thread *t = new_thread(); t->pfn = f; t->parg = arg; t->user = true; join(t->vc, cur->vc); ++cur->vc.c[cur->id];
    start_thread(t, user_entry); *h = t->real; count_alive(); sync_point(); return 0;
}
int pthread_join(pthread_t h, void **r) {
    for (int i = 0; i < nthreads; ++i) if (threads[i]->user && pthread_equal(threads[i]->real, h)) {
        Thread *t = threads[i]; if (!t->done) block([](void *a) { return ((Thread *)a)->done; }, t, "a thread to end"); acquire(t->vc); if (r) *r = t->retval; return 0; }
    return ESRCH;
}
int pthread_detach(pthread_t) { return 0; }
int pthread_mutex_lock(pthread_mutex_t *m) { lock(m, "a mutex", (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE); return 0; }
int pthread_mutex_trylock(pthread_mutex_t *m) { return trylock(m) ? 0 : EBUSY; }
int pthread_mutex_unlock(pthread_mutex_t *m) { unlock(m); return 0; }
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *) { rt_set(m, 0, sizeof *m); return 0; }
int pthread_mutex_destroy(pthread_mutex_t *) { return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t *m) { ensure_main(); sync_point(); Mutex &x = mutex_of(m); if (x.owner) block(mutex_nowriter, &x, "a read lock"); ++x.readers; acquire(syncvar(m)); return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t *m) { lock(m, "a write lock"); return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t *m) { unlock(m); return 0; }
struct CondWait { unsigned *gen; unsigned g; };
static std::map<uintptr_t, std::deque<CondWait *>> &conds() { static auto *m = new std::map<uintptr_t, std::deque<CondWait *>>(); return *m; }
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    unsigned woken = 0; CondWait w{&woken, 0}; conds()[(uintptr_t)c].push_back(&w); unlock(m);
    block([](void *a) { return *((CondWait *)a)->gen != 0; }, &w, "a condition"); acquire(syncvar(c)); lock(m, "a mutex"); return 0;
}
int pthread_cond_signal(pthread_cond_t *c) { release(syncvar(c)); auto &q = conds()[(uintptr_t)c]; if (!q.empty()) { size_t k = sim::choose(q.size()); *q[k]->gen = 1; q.erase(q.begin() + k); } sync_point(); return 0; }
int pthread_cond_broadcast(pthread_cond_t *c) { release(syncvar(c)); auto &q = conds()[(uintptr_t)c]; for (auto *w : q) *w->gen = 1; q.clear(); sync_point(); return 0; }
int pthread_once(pthread_once_t *o, void (*f)()) {
    ensure_main(); sync_point(); int *s = (int *)o;
    if (*s == 2) { acquire(syncvar(o)); return 0; }
    if (*s == 1) { block([](void *p) { return *(int *)p != 1; }, s, "a once"); }
    if (*s == 2) { acquire(syncvar(o)); return 0; }
    *s = 1; try { f(); } catch (...) { *s = 0; throw; } *s = 2; release(syncvar(o)); return 0;
}
int sched_yield() { sync_point(); return 0; }
int usleep(useconds_t) { sim_clock().mono_ns += 1000; if (active) reschedule(true); return 0; }
int nanosleep(const struct timespec *, struct timespec *) { sim_clock().mono_ns += 1000; if (active) reschedule(true); return 0; }

// OpenMP
void GOMP_parallel(void (*fn)(void *), void *d, unsigned n, unsigned) { parallel(fn, d, n); }
struct PL { void (*fn)(void *); void *d; long s, e, i, c; int k; };
#define PLOOP(name, kind) void GOMP_parallel_loop_##name(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned) { \
    PL p{fn, d, s, e, i, c, kind}; parallel([](void *a) { PL *p = (PL *)a; loop_init(p->s, p->e, p->i, p->c, p->k); p->fn(p->d); }, &p, n); }
#define PLOOPR(name) void GOMP_parallel_loop_##name(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, unsigned) { \
    PL p{fn, d, s, e, i, 0, 0}; parallel([](void *a) { PL *p = (PL *)a; loop_init(p->s, p->e, p->i, p->c, p->k); p->fn(p->d); }, &p, n); }
PLOOP(static, 1) PLOOP(dynamic, 0) PLOOP(guided, 0) PLOOP(nonmonotonic_dynamic, 0) PLOOP(nonmonotonic_guided, 0) PLOOPR(runtime) PLOOPR(nonmonotonic_runtime) PLOOPR(maybe_nonmonotonic_runtime)
#define LOOP(name, kind) bool GOMP_loop_##name##_start(long s, long e, long i, long c, long *a, long *b) { return loop_start(s, e, i, c, kind, a, b); } bool GOMP_loop_##name##_next(long *a, long *b) { return loop_next(a, b); }
LOOP(static, 1) LOOP(dynamic, 0) LOOP(guided, 0) LOOP(nonmonotonic_dynamic, 0) LOOP(nonmonotonic_guided, 0)
#define LOOPR(name) bool GOMP_loop_##name##_start(long s, long e, long i, long *a, long *b) { return loop_start(s, e, i, 1, 0, a, b); } bool GOMP_loop_##name##_next(long *a, long *b) { return loop_next(a, b); }
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)
typedef unsigned long long ull;
#define ULOOP(name) bool GOMP_loop_ull_##name##_start(bool up, ull s, ull e, ull i, ull c, ull *a, ull *b) { return uloop_start(up, s, e, i, c, a, b); } bool GOMP_loop_ull_##name##_next(ull *a, ull *b) { return uloop_next(a, b); }
ULOOP(static) ULOOP(dynamic) ULOOP(guided) ULOOP(nonmonotonic_dynamic) ULOOP(nonmonotonic_guided)
#define ULOOPR(name) bool GOMP_loop_ull_##name##_start(bool up, ull s, ull e, ull i, ull *a, ull *b) { return uloop_start(up, s, e, i, 1, a, b); } bool GOMP_loop_ull_##name##_next(ull *a, ull *b) { return uloop_next(a, b); }
ULOOPR(runtime) ULOOPR(nonmonotonic_runtime) ULOOPR(maybe_nonmonotonic_runtime)
void GOMP_loop_end() { barrier(); ws_end(); }
void GOMP_loop_end_nowait() { ws_end(); }
bool GOMP_loop_end_cancel() { barrier(); ws_end(); return false; }
void GOMP_barrier() { barrier(); }
bool GOMP_barrier_cancel() { barrier(); return false; }
bool GOMP_cancel(int, bool) { return false; }
bool GOMP_cancellation_point(int) { return false; }
static char g_crit, g_atom;
void GOMP_critical_start() { lock(&g_crit, "a critical section"); }
void GOMP_critical_end() { unlock(&g_crit); }
void GOMP_critical_name_start(void **p) { lock(p, "a named critical section"); }
void GOMP_critical_name_end(void **p) { unlock(p); }
void GOMP_atomic_start() { lock(&g_atom, "an atomic section"); }
void GOMP_atomic_end() { unlock(&g_atom); }
bool GOMP_single_start() { ensure_main(); sync_point(); WS &w = ws(); bool first = !w.single_taken; w.single_taken = true; w.init = true; ws_end(); return first; }
void *GOMP_single_copy_start() { ensure_main(); sync_point(); Team *t = cur->team; WS &w = ws(); if (!w.single_taken) { w.single_taken = true; w.init = true; return nullptr; } (void)t; barrier(); void *r = ws().copy; ws_end(); return r; }
void GOMP_single_copy_end(void *d) { ws().copy = d; barrier(); ws_end(); }
unsigned GOMP_sections_start(unsigned n) { ensure_main(); loop_init(1, (long)n + 1, 1, 1, 0); return sections_next(); }
unsigned GOMP_sections_next() { return sections_next(); }
void GOMP_sections_end() { barrier(); ws_end(); }
void GOMP_sections_end_nowait() { ws_end(); }
void GOMP_parallel_sections(void (*fn)(void *), void *d, unsigned n, unsigned cnt, unsigned) { PL p{fn, d, 1, (long)cnt + 1, 1, 1, 0}; parallel([](void *a) { PL *p = (PL *)a; loop_init(p->s, p->e, p->i, p->c, p->k); p->fn(p->d); }, &p, n); }
// tasks run where they are created
void GOMP_task(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long size, long align, bool, unsigned, void **, int, void *) {
    ensure_main(); sync_point();
    if (!cpy) { fn(data); return; }
    std::vector<char> buf(size + align); char *p = (char *)(((uintptr_t)buf.data() + align - 1) & ~(uintptr_t)(align - 1)); cpy(p, data); fn(p);
}
void GOMP_taskwait() { sync_point(); }
void GOMP_taskyield() { sync_point(); }
void GOMP_taskgroup_start() {}
void GOMP_taskgroup_end() { sync_point(); }
void GOMP_taskloop(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long size, long align, unsigned, unsigned long, int, long start, long end, long) {
    std::vector<char> buf(size + align); char *p = (char *)(((uintptr_t)buf.data() + align - 1) & ~(uintptr_t)(align - 1)); if (cpy) cpy(p, data); else rt_copy(p, data, size); ((long *)p)[0] = start; ((long *)p)[1] = end; fn(p);
}
// OpenMP as clang calls it
typedef void (*KFn)(int *, int *, ...);
struct KCall { KFn fn; int argc; void *a[24]; };
static void kmp_call(void *d) {
    KCall *c = (KCall *)d; void **a = c->a; int g = cur->id, b = 0;
    c->fn(&g, &b, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13], a[14], a[15], a[16], a[17], a[18], a[19], a[20], a[21], a[22], a[23]);
}
static __thread unsigned kmp_pushed;
void __kmpc_fork_call(void *, int argc, KFn fn, ...) {
    ensure_main(); if (argc > 24) sim::harness_error("a parallel region with %d captured values", argc);
    KCall c; rt_set(&c, 0, sizeof c); c.fn = fn; c.argc = argc; va_list v; va_start(v, fn); for (int i = 0; i < argc; ++i) c.a[i] = va_arg(v, void *); va_end(v);
    unsigned n = kmp_pushed; kmp_pushed = 0; parallel(kmp_call, &c, n);
}
int __kmpc_global_thread_num(void *) { ensure_main(); return cur->id; }
void __kmpc_push_num_threads(void *, int, int n) { kmp_pushed = n > 0 ? n : 0; }
void __kmpc_push_proc_bind(void *, int, int) {}
struct KSaved { Team *t; int id; unsigned ws; };
static std::vector<KSaved> &kmp_saved() { static auto *v = new std::vector<KSaved>[MAXT]; return v[cur->id]; }
void __kmpc_serialized_parallel(void *, int) { ensure_main(); kmp_pushed = 0; in_rt = true; kmp_saved().push_back({cur->team, cur->team_id, cur->ws_seq}); in_rt = false; cur->team = nullptr; cur->team_id = 0; }
void __kmpc_end_serialized_parallel(void *, int) { KSaved s = kmp_saved().back(); kmp_saved().pop_back(); cur->team = s.t; cur->team_id = s.id; cur->ws_seq = s.ws; }
extern "C++" template<class T, class ST> void kmp_static(int sched, int *last, T *lo, T *up, ST *stride, ST incr, ST chunk) {
    ensure_main(); sync_point(); typedef typename std::make_unsigned<T>::type U; U n = cur->team ? cur->team->n : 1, id = cur->team ? cur->team_id : 0;
    if (last) *last = 0;
    if (incr > 0 ? *up < *lo : *lo < *up) { if (stride) *stride = incr; return; }
    U trip = (incr > 0 ? ((U)*up - (U)*lo) / (U)incr : ((U)*lo - (U)*up) / (U)-incr) + 1;
    if ((sched & 0xffff) == 33) {
        U c = chunk < 1 ? 1 : chunk, span = c * incr; *stride = span * n; *lo += span * id; *up = *lo + span - incr; if (last) *last = id == ((trip - 1) / c) % n; return;
    }
    if (stride) *stride = incr > 0 ? trip : -(ST)trip;
    if (trip < n) { if (id < trip) { *lo += (T)(id * incr); *up = *lo; } else *lo = *up + incr; if (last) *last = id == trip - 1; return; }
    U small = trip / n, extra = trip % n; *lo += (T)(incr * (id * small + (id < extra ? id : extra))); *up = *lo + (T)(small * incr) - (id < extra ? 0 : incr); if (last) *last = id == n - 1;
}
#define KSTATIC(sfx, T, ST) void __kmpc_for_static_init_##sfx(void *, int, int sched, int *last, T *lo, T *up, ST *stride, ST incr, ST chunk) { kmp_static<T, ST>(sched, last, lo, up, stride, incr, chunk); }
KSTATIC(4, int, int) KSTATIC(4u, unsigned, int) KSTATIC(8, long, long) KSTATIC(8u, unsigned long, long)
void __kmpc_for_static_fini(void *, int) {}
#define KDISP(sfx, T, ST) \
void __kmpc_dispatch_init_##sfx(void *, int, int sched, T lo, T up, ST st, ST chunk) { ensure_main(); int k = sched & 0xffff; loop_init((long)lo, (long)up + (st > 0 ? 1 : -1), (long)st, (long)chunk, k == 33 || k == 34 || k == 65 || k == 66); } \
int __kmpc_dispatch_next_##sfx(void *, int, int *last, T *lo, T *up, ST *st) { long a, b; WS &w = ws(); long inc = w.incr, end = w.end; if (!loop_next(&a, &b)) { ws_end(); return 0; } if (last) *last = inc > 0 ? b >= end : b <= end; *lo = (T)a; long k = inc > 0 ? (b - a + inc - 1) / inc : (a - b - inc - 1) / -inc; *up = (T)(a + (k - 1) * inc); if (st) *st = (ST)inc; return 1; } \
void __kmpc_dispatch_fini_##sfx(void *, int) {}
KDISP(4, int, int) KDISP(4u, unsigned, int) KDISP(8, long, long) KDISP(8u, unsigned long, long)
void __kmpc_dispatch_deinit(void *, int) {}
void __kmpc_barrier(void *, int) { ensure_main(); barrier(); }
int __kmpc_cancel_barrier(void *, int) { ensure_main(); barrier(); return 0; }
int __kmpc_cancel(void *, int, int) { return 0; }
int __kmpc_cancellationpoint(void *, int, int) { return 0; }
void __kmpc_flush(void *) { __tsan_atomic_thread_fence(5); }
void __kmpc_critical(void *, int, void *l) { lock(l, "a critical section"); }
void __kmpc_critical_with_hint(void *, int, void *l, unsigned) { lock(l, "a critical section"); }
void __kmpc_end_critical(void *, int, void *l) { unlock(l); }
int __kmpc_reduce(void *, int, int, size_t, void *, void *, void *l) { lock(l, "a reduction"); return 1; }
int __kmpc_reduce_nowait(void *, int, int, size_t, void *, void *, void *l) { lock(l, "a reduction"); return 1; }
void __kmpc_end_reduce(void *, int, void *l) { unlock(l); barrier(); }
void __kmpc_end_reduce_nowait(void *, int, void *l) { unlock(l); }
int __kmpc_single(void *, int) { return GOMP_single_start(); }
void __kmpc_end_single(void *, int) {}
int __kmpc_master(void *, int) { ensure_main(); return !cur->team || cur->team_id == 0; }
void __kmpc_end_master(void *, int) {}
int __kmpc_masked(void *, int, int f) { ensure_main(); return (cur->team ? cur->team_id : 0) == f; }
void __kmpc_end_masked(void *, int) {}
void __kmpc_copyprivate(void *, int, size_t, void *d, void (*f)(void *, void *), int mine) {
    ensure_main(); if (!cur->team || cur->team->n == 1) return; WS &w = ws(); if (mine) w.copy = d; barrier(); if (!mine) f(d, ws().copy); barrier(); ws_end();
}
// a task runs where it is created
struct KTask { void *shareds; int (*routine)(int, KTask *); int part; void *d1, *d2; };
KTask *__kmpc_omp_task_alloc(void *, int, int, size_t n, size_t sh, int (*r)(int, KTask *)) { n = (n + 15) & ~(size_t)15; KTask *t = (KTask *)calloc(1, n + sh + 16); t->shareds = (char *)t + n; t->routine = r; return t; }
int __kmpc_omp_task(void *, int g, KTask *t) { sync_point(); t->routine(g, t); free(t); return 0; }
int __kmpc_omp_task_with_deps(void *l, int g, KTask *t, int, void *, int, void *) { return __kmpc_omp_task(l, g, t); }
void __kmpc_omp_wait_deps(void *, int, int, void *, int, void *) { sync_point(); }
void __kmpc_omp_taskwait_deps_51(void *, int, int, void *, int, void *, int) { sync_point(); }
void __kmpc_omp_task_begin_if0(void *, int, KTask *) {}
void __kmpc_omp_task_complete_if0(void *, int, KTask *t) { free(t); }
int __kmpc_omp_taskwait(void *, int) { sync_point(); return 0; }
int __kmpc_omp_taskyield(void *, int, int) { sync_point(); return 0; }
void __kmpc_taskgroup(void *, int) {}
void __kmpc_end_taskgroup(void *, int) { sync_point(); }
void __kmpc_taskloop(void *l, int g, KTask *t, int, unsigned long *, unsigned long *, long, int, int, unsigned long, void *) { __kmpc_omp_task(l, g, t); }
int omp_get_num_threads() { ensure_main(); return cur->team ? cur->team->n : 1; }
int omp_get_thread_num() { ensure_main(); return cur->team ? cur->team_id : 0; }
int omp_get_max_threads() { ensure_main(); return cur->want ? cur->want : opt.max_threads; }
void omp_set_num_threads(int n) { ensure_main(); cur->want = n > 0 ? n : 0; }
int omp_get_num_procs() { return opt.max_threads; }
int omp_in_parallel() { ensure_main(); return cur->team && cur->team->n > 1; }
void omp_set_dynamic(int) {} int omp_get_dynamic() { return opt.may_deliver_fewer; }
void omp_set_nested(int) {} int omp_get_nested() { return 0; }
int omp_get_level() { ensure_main(); return cur->level; } int omp_get_active_level() { return omp_in_parallel(); }
int omp_get_ancestor_thread_num(int l) { return l == 0 ? 0 : omp_get_thread_num(); } int omp_get_team_size(int l) { return l == 0 ? 1 : omp_get_num_threads(); }
int omp_get_thread_limit() { return 16; } int omp_get_max_active_levels() { return 1; } void omp_set_max_active_levels(int) {}
int omp_in_final() { return 0; } void omp_set_schedule(int, int) {} void omp_get_schedule(int *k, int *c) { *k = 2; *c = 1; }
double omp_get_wtime() { return sim_clock().mono_ns * 1e-9; } double omp_get_wtick() { return 1e-9; }
void omp_init_lock(void *) {} void omp_destroy_lock(void *) {} void omp_set_lock(void *l) { lock(l, "an OpenMP lock"); } void omp_unset_lock(void *l) { unlock(l); } int omp_test_lock(void *l) { return trylock(l); }
void omp_init_nest_lock(void *) {} void omp_destroy_nest_lock(void *) {} void omp_set_nest_lock(void *l) { lock(l, "an OpenMP lock", true); } void omp_unset_nest_lock(void *l) { unlock(l); }

// memory moved by library code
#define MEMPRE(d, s, n) if (active && !in_rt) { if (s) access(s, n, false, PC()); access(d, n, true, PC()); }
void *memcpy(void *d, const void *s, size_t n) { MEMPRE(d, s, n) void *r = d; asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); return r; }
void *memmove(void *d, const void *s, size_t n) {
    MEMPRE(d, s, n) void *r = d;
    if ((uintptr_t)d - (uintptr_t)s >= n) { asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); }
    else { char *dd = (char *)d + n; const char *ss = (const char *)s + n; asm volatile("" ::: "memory"); while (n--) { *--dd = *--ss; asm volatile("" ::: "memory"); } }
    return r;
}
void *memset(void *d, int c, size_t n) { const void *none = nullptr; MEMPRE(d, none, n) void *r = d; asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory"); return r; }

// the same as clang's instrumentation calls them
void *__tsan_memcpy(void *d, const void *s, size_t n) { MEMPRE(d, s, n) rt_copy(d, s, n); return d; }
void *__tsan_memmove(void *d, const void *s, size_t n) { MEMPRE(d, s, n) bool o = in_rt; in_rt = true; memmove(d, s, n); in_rt = o; return d; }
void *__tsan_memset(void *d, int c, size_t n) { const void *none = nullptr; MEMPRE(d, none, n) rt_set(d, c, n); return d; }

// limb arithmetic of GMP
typedef unsigned long L; typedef long S;
#define W3(name) L __real___gmpn_##name(L *r, const L *a, const L *b, S n); L __wrap___gmpn_##name(L *r, const L *a, const L *b, S n) { if (active) { access(a, 8 * n, 0, PC()); access(b, 8 * n, 0, PC()); access(r, 8 * n, 1, PC()); } return __real___gmpn_##name(r, a, b, n); }
W3(add_n) W3(sub_n)
#define W1(name) L __real___gmpn_##name(L *r, const L *a, S n, L b); L __wrap___gmpn_##name(L *r, const L *a, S n, L b) { if (active) { access(a, 8 * n, 0, PC()); access(r, 8 * n, 1, PC()); } return __real___gmpn_##name(r, a, n, b); }
W1(mul_1) W1(addmul_1) W1(submul_1)
#define WS1(name) L __real___gmpn_##name(L *r, const L *a, S n, unsigned b); L __wrap___gmpn_##name(L *r, const L *a, S n, unsigned b) { if (active) { access(a, 8 * n, 0, PC()); access(r, 8 * n, 1, PC()); } return __real___gmpn_##name(r, a, n, b); }
WS1(lshift) WS1(rshift)
void __real___gmpn_mul_n(L *, const L *, const L *, S); void __wrap___gmpn_mul_n(L *r, const L *a, const L *b, S n) { if (active) { access(a, 8 * n, 0, PC()); access(b, 8 * n, 0, PC()); access(r, 16 * n, 1, PC()); } __real___gmpn_mul_n(r, a, b, n); }
void __real___gmpn_sqr(L *, const L *, S); void __wrap___gmpn_sqr(L *r, const L *a, S n) { if (active) { access(a, 8 * n, 0, PC()); access(r, 16 * n, 1, PC()); } __real___gmpn_sqr(r, a, n); }
L __real___gmpn_mul(L *, const L *, S, const L *, S); L __wrap___gmpn_mul(L *r, const L *a, S n, const L *b, S m) { if (active) { access(a, 8 * n, 0, PC()); access(b, 8 * m, 0, PC()); access(r, 8 * (n + m), 1, PC()); } return __real___gmpn_mul(r, a, n, b, m); }
void __real___gmpn_tdiv_qr(L *, L *, S, const L *, S, const L *, S); void __wrap___gmpn_tdiv_qr(L *q, L *r, S z, const L *a, S n, const L *d, S m) { if (active) { access(a, 8 * n, 0, PC()); access(d, 8 * m, 0, PC()); access(r, 8 * m, 1, PC()); access(q, 8 * (n - m + 1), 1, PC()); } __real___gmpn_tdiv_qr(q, r, z, a, n, d, m); }
S __real___gmpn_gcdext(L *, L *, S *, L *, S, L *, S); S __wrap___gmpn_gcdext(L *g, L *s, S *sn, L *u, S un, L *v, S vn) { if (active) { access(u, 8 * un, 1, PC()); access(v, 8 * vn, 1, PC()); access(g, 8 * vn, 1, PC()); access(s, 8 * (vn + 1), 1, PC()); } return __real___gmpn_gcdext(g, s, sn, u, un, v, vn); }
void __real___gmpn_copyi(L *, const L *, S); void __wrap___gmpn_copyi(L *r, const L *a, S n) { if (active) { access(a, 8 * n, 0, PC()); access(r, 8 * n, 1, PC()); } __real___gmpn_copyi(r, a, n); }
void __real___gmpn_copyd(L *, const L *, S); void __wrap___gmpn_copyd(L *r, const L *a, S n) { if (active) { access(a, 8 * n, 0, PC()); access(r, 8 * n, 1, PC()); } __real___gmpn_copyd(r, a, n); }
S __real___gmpn_set_str(L *, const unsigned char *, size_t, int); S __wrap___gmpn_set_str(L *r, const unsigned char *s, size_t n, int b) { S k = __real___gmpn_set_str(r, s, n, b); if (active) { access(s, n, 0, PC()); access(r, 8 * k, 1, PC()); } return k; }

// clocks
int clock_gettime(clockid_t id, struct timespec *t) {
    Clock &c = sim_clock();
    if (c.fail) { int e = c.fail(id); if (e) { errno = e; return -1; } }
    if (c.on_read) c.on_read(id); else { c.real_ns += 1000; c.mono_ns += 1000; c.cpu_ns += 700; }
    int64_t v = id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE || id == CLOCK_TAI ? c.real_ns : id == CLOCK_PROCESS_CPUTIME_ID || id == CLOCK_THREAD_CPUTIME_ID ? c.cpu_ns : c.mono_ns;
    t->tv_sec = v / 1000000000; t->tv_nsec = v % 1000000000; if (t->tv_nsec < 0) { t->tv_nsec += 1000000000; --t->tv_sec; }
    return 0;
}
int gettimeofday(struct timeval *t, void *) { struct timespec s; if (clock_gettime(CLOCK_REALTIME, &s)) return -1; t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return 0; }
time_t time(time_t *o) { struct timespec s; if (clock_gettime(CLOCK_REALTIME, &s)) return (time_t)-1; if (o) *o = s.tv_sec; return s.tv_sec; }
clock_t clock() { struct timespec s; if (clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &s)) return (clock_t)-1; return s.tv_sec * 1000000 + s.tv_nsec / 1000; }
clock_t times(struct tms *t) { sim_clock().mono_ns += 1000; if (t) { memset(t, 0, sizeof *t); t->tms_utime = sim_clock().cpu_ns / 10000000; } return sim_clock().mono_ns / 10000000; }
int timespec_get(struct timespec *t, int base) { return base == TIME_UTC && !clock_gettime(CLOCK_REALTIME, t) ? base : 0; }
// who we are
pid_t getpid() { return sim_clock().pid; }
pid_t getppid() { return sim_clock().pid - 1; }
pid_t gettid() { return sim_clock().pid + self(); }
}
#ifndef SIMRT_NO_NEW
static void *sim_new(size_t n) { void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); if (table) forget(p, malloc_usable_size(p)); simrt::paint_new(p, n); return p; }
static void sim_delete(void *p) { if (p && table) forget(p, malloc_usable_size(p)); free(p); }
void *operator new(size_t n) { return sim_new(n); }
void *operator new[](size_t n) { return sim_new(n); }
void operator delete(void *p) noexcept { sim_delete(p); }
void operator delete[](void *p) noexcept { sim_delete(p); }
void operator delete(void *p, size_t) noexcept { sim_delete(p); }
void operator delete[](void *p, size_t) noexcept { sim_delete(p); }
#endif
