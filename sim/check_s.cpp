// S01-S04: objects written to and read from simulated streams.
#include "core.hpp"
#include "s_items.hpp"
#include <cstring>
#include <map>
#include <iostream>
#include <new>
#include <sstream>
#include <stdexcept>
#include <libff/common/serialization.hpp>
#include <libff/common/profiling.hpp>

namespace sitems {
std::vector<Type> &types() { static std::vector<Type> t; return t; }
std::vector<WordsType> &words_types() { static std::vector<WordsType> t; return t; }
std::vector<Init> &inits() { static std::vector<Init> t; return t; }
}

// ------------------------------------------------ allocation accounting
static uint64_t g_alloc_bytes = 0, g_alloc_limit = ~0ull;
void *operator new(size_t n) {
    g_alloc_bytes += n;
    if (g_alloc_bytes > g_alloc_limit) { g_alloc_limit = ~0ull; sim::violate("unbounded-memory", "reader asked for %zu bytes in one piece (%llu in all)", n, (unsigned long long)g_alloc_bytes); }
    void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p;
}
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }

extern "C" const char *__asan_default_options() { return "detect_leaks=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:print_stats=0"; }

namespace {
using namespace sitems;
struct DeviceError : std::runtime_error { DeviceError() : std::runtime_error("simulated device error") {} };

// ------------------------------------------------------- simulated input
struct SimIn : std::streambuf {
    const std::string &data; size_t pos = 0; unsigned mode; sim::Rng g; const std::vector<size_t> &marks;
    size_t fail_at; unsigned fail_kind;       // 0 end of file, 1 error (exception from the device)
    bool fired = false; size_t deliveries = 0;
    char buf[4096];
    SimIn(const std::string &d, unsigned m, uint64_t seed, const std::vector<size_t> &mk) : data(d), mode(m), g(seed), marks(mk), fail_at(d.size()), fail_kind(0) { setg(buf, buf, buf); }
    size_t next_len() {
        size_t left = fail_at - pos, n;
        switch (mode) {
        case 0: n = left; break;
        case 1: n = 1; break;
        case 2: n = 1 + g.next() % 7; break;
        case 3: n = 1 + g.next() % 100; break;
        case 4: n = (g.next() & 3) ? 1 + g.next() % 40 : 1; break;
        default: {            // up to an object boundary, or one byte short or beyond
            n = left;
            for (size_t m : marks) if (m > pos) { n = m - pos; break; }
            switch (g.next() % 3) { case 0: break; case 1: if (n > 1) --n; break; default: ++n; }
        } }
        if (n > left) n = left;
        if (n > sizeof buf) n = sizeof buf;
        return n;
    }
    int_type underflow() override {
        if (gptr() < egptr()) return traits_type::to_int_type(*gptr());
        if (pos >= fail_at) { fired = true; if (fail_kind) throw DeviceError(); return traits_type::eof(); }
        size_t n = next_len();
        memcpy(buf, data.data() + pos, n); pos += n; ++deliveries;
        setg(buf, buf, buf + n);
        return traits_type::to_int_type(*gptr());
    }
    size_t consumed() const { return pos - (egptr() - gptr()); }
};
// ------------------------------------------------------ simulated output
struct SimOut : std::streambuf {
    std::string dev; size_t cap; unsigned kind; bool fired = false, once = false; std::string pend; size_t bufsize;
    // kind 0: refuse (short write), 1: exception; once: the device works again afterwards
    SimOut(size_t c, unsigned k, size_t b) : cap(c), kind(k), bufsize(b) {}
    size_t accept(const char *p, size_t n) {
        size_t room = cap > dev.size() ? cap - dev.size() : 0, k = n < room ? n : room;
        dev.append(p, k);
        if (k < n) { fired = true; if (once) cap = ~(size_t)0; if (kind) throw DeviceError(); }
        return k;
    }
    bool drain() { size_t k = accept(pend.data(), pend.size()); bool ok = k == pend.size(); pend.erase(0, k); return ok; }
    int_type overflow(int_type c) override {
        if (traits_type::eq_int_type(c, traits_type::eof())) return traits_type::not_eof(c);
        char ch = traits_type::to_char_type(c);
        return xsputn(&ch, 1) == 1 ? c : traits_type::eof();
    }
    std::streamsize xsputn(const char *p, std::streamsize n) override {
        if (bufsize == 0) return accept(p, n);
        pend.append(p, n);
        if (pend.size() >= bufsize && !drain()) return 0;
        return n;
    }
    int sync() override { return drain() ? 0 : -1; }
};

// ------------------------------------------------------------- workload
struct Placed { const Type *t; ItemP v; unsigned sep; size_t begin, end; };   // sep: 0 none, 1 newline macro, 2 separator macro, 3 plain newline
void write_all(const std::vector<Placed> &w, std::ostream &o, std::vector<size_t> *ends = nullptr) {
    for (auto &p : w) {
        p.v->write(o);
        if (p.sep == 1) o << OUTPUT_NEWLINE; else if (p.sep == 2) o << OUTPUT_SEPARATOR; else if (p.sep == 3) o << "\n";
        if (ends) ends->push_back((size_t)o.tellp());
    }
}
void read_sep(const Placed &p, std::istream &i) {
    if (p.sep == 1) libff::consume_OUTPUT_NEWLINE(i); else if (p.sep == 2) libff::consume_OUTPUT_SEPARATOR(i); else if (p.sep == 3) libff::consume_newline(i);
}
std::vector<Placed> workload(unsigned maxitems) {
    std::vector<Placed> w; unsigned n = 1 + sim::choose(maxitems), weight = 0;
    // swarm: a run concentrates on a few types
    std::vector<const Type *> sub; unsigned k = 1 + sim::choose(3);
    static std::vector<const Type *> pre; if (pre.empty()) for (auto &t : types()) if (t.name.find("precomp") != std::string::npos) pre.push_back(&t);
    for (unsigned i = 0; i < k; ++i) sub.push_back(sim::chance(1, 8) ? sim::pick(pre) : &sim::pick(types()));
    for (unsigned i = 0; i < n && weight < 14; ++i) {
        Placed p; p.t = sim::pick(sub); p.v = p.t->make(); weight += p.t->weight;
        p.sep = p.t->plain ? 3 : p.t->terminated ? (sim::chance(1, 5) ? 3 : 0) : 1 + sim::choose(3); p.begin = p.end = 0;
        w.push_back(std::move(p));
    }
    return w;
}
std::string encode(std::vector<Placed> &w, std::vector<size_t> &ends) {
    std::ostringstream o; write_all(w, o, &ends);
    size_t b = 0; for (size_t i = 0; i < w.size(); ++i) { w[i].begin = b; w[i].end = b = ends[i]; }
    return o.str();
}
void log_workload(const std::vector<Placed> &w, const std::string &enc) {
    for (auto &p : w) sim::ev("object %s sep=%u bytes [%zu,%zu)", p.t->name.c_str(), p.sep, p.begin, p.end);
    sim::hash_bytes(enc.data(), enc.size());
}
// budget for reading `n` bytes: taken from what the undamaged reads of this
// process cost, with a wide margin
uint64_t step_budget(size_t n) { return 60000000ull + 400000ull * n; }
uint64_t mem_budget(size_t n) { return (8u << 20) + 4096ull * n; }

void arm(size_t bytes) { g_alloc_bytes = 0; g_alloc_limit = mem_budget(bytes); }
void disarm() { g_alloc_limit = ~0ull; }

void prepare(int, char **) {
    libff::inhibit_profiling_info = true; libff::inhibit_profiling_counters = true;
    for (auto i : inits()) i();
}

// ------------------------------------------------------------------ S01
void run_s01() {
    if (sim::chance(1, 12) && !words_types().empty()) { sim::pick(words_types()).run(); return; }
    std::vector<Placed> w = workload(7);
    std::vector<size_t> ends; std::string enc = encode(w, ends);
    log_workload(w, enc);
    // equal objects, equal bytes
    if (sim::chance(1, 2)) {
        unsigned h = sim::chance(1, 3) ? 16 + 2 * sim::choose(512) : 1 + sim::choose(12);
        for (auto &p : w) { ItemP r = p.v->respell(h); std::ostringstream o; r->write(o); std::string a = o.str();
            size_t seplen = p.end - p.begin - a.size();
            if (a.size() > p.end - p.begin || enc.compare(p.begin, a.size(), a) != 0 || seplen > 1) sim::violate("encoding-depends-on-representation", "%s: two equal values have different encodings", p.t->name.c_str());
            sim::count("respelled"); }
    }
    if (sim::chance(1, 6)) {
        const Placed &p = w[sim::choose(w.size())];
        ItemP r = p.v->again(); sim::count("reserialized");
        if (!r->equal(*p.v)) sim::violate("not-equal", "%s: reserialize() gives another object", p.t->name.c_str());
    }
    unsigned mode = sim::choose(6); uint64_t cs = sim::word32();
    SimIn sb(enc, mode, cs, ends); std::istream in(&sb);
    if (sim::chance(1, 8)) in.exceptions(std::ios::badbit | std::ios::failbit);
    sim::Budget b(step_budget(enc.size()) * 2); arm(enc.size() * 4);
    bool reuse = sim::chance(1, 3); ItemP last;
    try {
        for (size_t i = 0; i < w.size(); ++i) {
            ItemP r = reuse ? w[(i + 1) % w.size()].t == w[i].t ? w[(i + 1) % w.size()].v->clone() : w[i].t->blank() : w[i].t->blank();   // reading into a used object
            r->read(in); 
            if (!in && !(in.eof() && !in.fail())) sim::violate("refused-own-output", "%s: the stream failed reading what was written (object %zu)", w[i].t->name.c_str(), i);
            size_t before = sb.consumed();
            read_sep(w[i], in);
            size_t seplen = sb.consumed() - before;
            if (!in) sim::violate("refused-own-output", "%s: the stream failed at the terminator (object %zu)", w[i].t->name.c_str(), i);
            if (sb.consumed() != w[i].end) sim::violate("misplaced", "%s: reading stopped at byte %zu, the object ends at %zu (object %zu, separator %zu)", w[i].t->name.c_str(), sb.consumed(), w[i].end, i, seplen);
            if (!r->equal(*w[i].v)) sim::violate("not-equal", "%s: object %zu reads back different", w[i].t->name.c_str(), i);
            std::ostringstream o; r->write(o); std::string a = o.str();
            if (enc.compare(w[i].begin, a.size(), a) != 0) sim::violate("not-equal", "%s: object %zu reads back with another encoding", w[i].t->name.c_str(), i);
            std::string bad = r->invalid(); if (!bad.empty()) sim::violate("invalid", "%s: %s", w[i].t->name.c_str(), bad.c_str());
        }
    } catch (const std::ios_base::failure &) { sim::violate("refused-own-output", "stream exception while reading what was written"); }
    disarm();
    sim::ev("mode=%u deliveries=%zu", mode, sb.deliveries);
    sim::count("deliveries", sb.deliveries); sim::count("objects", w.size()); sim::count("bytes", enc.size());
    if (mode) sim::count("fault.short_read", sb.deliveries);
    sim::set_signature(sim::event_hash()); if (mode && enc.size() > 4) sim::nontrivial();
}

// ------------------------------------------------------------------ S02
// where the count of a container's elements stands in its encoding: [first, second)
std::pair<size_t, size_t> count_place(const Placed &p, const std::string &enc) {
    size_t from = p.begin, c = p.v->count();
    if (p.v->count_inside()) {
        std::string n = "\n" + std::to_string(c) + "\n"; size_t k = enc.find(n, p.begin);
        if (k == std::string::npos || k >= p.end) return {0, 0};
        from = k + 1;
    }
    std::string n = std::to_string(c);
    if (enc.compare(from, n.size() + 1, n + "\n") != 0) return {0, 0};
    return {from, from + n.size()};
}
// one reading of `enc`, of which only `at` bytes arrive; bigger: the objects
// from this one on were larger than the ones at hand
void cut_s02(std::vector<Placed> &w, const std::string &enc, const std::vector<size_t> &ends, size_t at, size_t bigger) {
    unsigned kind = sim::choose(3);      // eof, device error, device error with stream exceptions on
    unsigned mode = sim::choose(6); uint64_t cs = sim::word32();
    SimIn sb(enc, mode, cs, ends); sb.fail_at = at; sb.fail_kind = kind ? 1 : 0;
    std::istream in(&sb);
    if (kind == 2) in.exceptions(sim::choose(2) ? std::ios::badbit : std::ios::badbit | std::ios::failbit);
    sim::ev("input ends at byte %zu of %zu, kind %u, delivery mode %u", at, enc.size(), kind, mode);
    sim::Budget b(step_budget(at)); arm(at);
    bool reported = false; size_t done = 0;
    std::vector<ItemP> got(w.size());
    try {
        for (size_t i = 0; i < w.size(); ++i) {
            got[i] = w[i].t->blank(); ItemP &r = got[i];
            r->read(in); read_sep(w[i], in);
            if (in) ++done;
            if (in && i < bigger && w[i].end <= at && !r->equal(*w[i].v)) sim::violate("wrong-before-failure", "%s: an object delivered completely before the input ended reads back different", w[i].t->name.c_str());
            if (!in) { reported = true; }
            if (!in && i < bigger && w[i].end < at) sim::violate("refused-complete", "%s: object %zu ends at byte %zu, the input at %zu, yet reading it failed", w[i].t->name.c_str(), i, w[i].end, at);
        }
    } catch (const DeviceError &) { reported = true; } catch (const std::ios_base::failure &) { reported = true; }
    catch (const std::exception &e) { reported = true; sim::ev("exception %s", e.what()); sim::count("other_exception"); }
    disarm();
    if (!reported && in) { size_t i = 0; while (i + 1 < w.size() && w[i].end <= at) ++i;
        sim::violate("accepted-truncated", "%s: input ended at byte %zu of %zu and the stream reports nothing", w[i].t->name.c_str(), at, enc.size()); }
    sim::count(kind == 0 ? "fault.input_eof" : kind == 1 ? "fault.input_error" : "fault.input_error_thrown", sb.fired);
    sim::ev("reported after %zu objects, steps %llu", done, (unsigned long long)b.used());
    // whatever the failure left in the objects, reading the whole input into them succeeds
    std::vector<size_t> e; std::string whole = bigger < w.size() ? encode(w, e) : enc;
    {
        SimIn again(whole, 0, 0, ends); std::istream in2(&again); sim::Budget b2(step_budget(whole.size()));
        for (size_t i = 0; i < w.size(); ++i) { ItemP r = got[i] ? std::move(got[i]) : w[i].t->blank(); r->read(in2); read_sep(w[i], in2); if (!in2 || !r->equal(*w[i].v)) sim::violate("retry", "%s: reading again after a failure does not give the object", w[i].t->name.c_str()); }
    }
    if (sb.fired) sim::nontrivial();
}
void run_s02() {
    std::vector<Placed> w = workload(4);
    std::vector<size_t> ends; std::string enc = encode(w, ends);
    log_workload(w, enc);
    if (enc.empty()) return;
    if (sim::chance(1, 6)) {
        // the beginning of a container much larger than any that could be made here
        std::vector<size_t> containers; for (size_t k = 0; k < w.size(); ++k) if (w[k].v->count() != Item::none) containers.push_back(k);
        size_t i = containers.empty() ? 0 : sim::pick(containers); std::pair<size_t, size_t> c{0, 0};
        if (!containers.empty()) c = count_place(w[i], enc);
        if (c.second) {
            static const char *const big[] = {"9999", "20000", "32768", "50000", "65535", "65000", "70000", "1000000", "100000000", "4294967296", "1000000000000", "9223372036854775807", "18446744073709551615"};
            std::string n = sim::choose(4) ? big[sim::choose(13)] : std::to_string(w[i].v->count() + 1 + sim::choose_log(1ull << 40));
            if (strtoull(n.c_str(), nullptr, 10) <= w[i].v->count()) n = std::to_string(w[i].v->count() + 1);
            std::string e2 = enc.substr(0, c.first) + n + enc.substr(c.second, w[i].end - c.second);
            sim::ev("object %zu has %s elements", i, n.c_str()); sim::count("fault.input_ends_in_a_large_container");
            size_t lo = c.first + n.size(), at = sim::chance(1, 3) ? e2.size() - (w[i].sep ? 1 : 0) : lo + sim::choose(sim::chance(1, 2) ? 64 : e2.size() - lo + 1);
            if (at < lo) at = lo;
            if (at > e2.size()) at = e2.size();
            cut_s02(w, e2, ends, at, i);
            sim::set_signature(sim::event_hash());
            return;
        }
    }
    // the last byte of what was written includes its terminator; every byte is needed
    for (unsigned cuts = 1 + sim::choose_w({4, 2, 1, 1, 1, 1}); cuts--;) {
        size_t at, i = sim::chance(1, 3) ? sim::choose(w.size()) : w.size() - 1;
        switch (sim::choose_w({4, 2, 2, 2, 3})) {
        case 0: at = sim::choose(enc.size()); break;
        case 1: { size_t e = w[i].end, back = 1 + sim::choose(12); at = e > back ? e - back : 0; break; }
        case 2: at = w[i].begin + sim::choose(6); break;
        case 3: at = sim::choose(2) ? enc.size() - 1 : 0; break;
        default: { size_t words = (w[i].end - w[i].begin) / 8; at = w[i].begin + 8 * sim::choose(words + 1); break; }   // between two machine words
        }
        if (at >= enc.size()) at = enc.size() - 1;
        cut_s02(w, enc, ends, at, w.size());
    }
    sim::set_signature(sim::event_hash());
}

// ------------------------------------------------------------------ S03
std::string damage(std::string s, unsigned n, const std::vector<size_t> &ends) {
    for (unsigned i = 0; i < n && !s.empty(); ++i) {
        size_t p;
        switch (sim::choose_w({4, 2, 2})) { case 0: p = sim::choose(s.size()); break; case 1: p = sim::choose(s.size() < 4 ? s.size() : 4); break;
            default: { size_t e = ends[sim::choose(ends.size())]; size_t back = 1 + sim::choose(34); p = e > back ? e - back : 0; if (p >= s.size()) p = s.size() - 1; } }
        switch (sim::choose(8)) {
        case 0: s[p] ^= 1 << sim::choose(8); sim::ev("flip a bit of byte %zu", p); sim::count("fault.bit_flip"); break;
        case 1: s[p] = (char)sim::choose(256); sim::ev("replace byte %zu", p); sim::count("fault.byte_replaced"); break;
        case 2: { static const char c[] = "0123456789-+ \nxa."; s[p] = c[sim::choose(sizeof c - 1)]; sim::ev("replace byte %zu by %02x", p, (unsigned char)s[p]); sim::count("fault.byte_replaced"); break; }
        case 3: { size_t k = 1 + sim::choose(9); s.erase(p, k); sim::ev("drop %zu bytes at %zu", k, p); sim::count("fault.bytes_dropped"); break; }
        case 4: { size_t k = 1 + sim::choose(20); std::string d = s.substr(p, k); s.insert(p, d); sim::ev("duplicate %zu bytes at %zu", k, p); sim::count("fault.bytes_duplicated"); break; }
        case 5: { size_t k = 1 + sim::choose(64); for (size_t j = p; j < p + k && j < s.size(); ++j) s[j] = (char)0xff; sim::ev("ones over %zu bytes at %zu", k, p); sim::count("fault.block_ones"); break; }
        case 6: { size_t k = 1 + sim::choose(64); for (size_t j = p; j < p + k && j < s.size(); ++j) s[j] = 0; sim::ev("zeros over %zu bytes at %zu", k, p); sim::count("fault.block_zeros"); break; }
        default: { size_t k = 1 + sim::choose(30); std::string d; uint64_t sd = sim::word32(); sim::Rng g(sd); for (size_t j = 0; j < k; ++j) d += (char)('0' + g.next() % 10); s.insert(p, d); sim::ev("insert %zu digits at %zu", k, p); sim::count("fault.digits_inserted"); break; }
        }
    }
    return s;
}
void run_s03() {
    if (sim::chance(1, 6) && !words_types().empty()) { sim::pick(words_types()).run(); return; }
    std::vector<Placed> w = workload(3);
    std::vector<size_t> ends; std::string enc = encode(w, ends);
    log_workload(w, enc);
    if (enc.empty()) return;
    unsigned n = 1 + sim::choose_w({6, 2, 1, 1});
    std::string dmg = enc;
    switch (sim::choose_w({8, 1, 1, 1})) {
    case 1: {           // blocks of an older version, of other values, still stand on the device
        std::vector<Placed> old; for (auto &p : w) { Placed q; q.t = p.t; q.sep = p.sep; q.begin = q.end = 0; q.v = p.t->make(); old.push_back(std::move(q)); }
        std::vector<size_t> e2; std::string o = encode(old, e2); static const size_t bs[] = {1, 8, 32, 512, 4096}; size_t b = bs[sim::choose(5)], p = sim::choose(enc.size() / b + 1) * b, k = sim::chance(1, 2) ? b : enc.size();
        dmg = enc.substr(0, p) + (p < o.size() ? o.substr(p, k) : "") + (p + k < enc.size() ? enc.substr(p + k) : ""); n = sim::chance(2, 3) ? 0 : 1; sim::ev("%zu bytes at %zu are an older version's", k, p); sim::count("fault.stale_block"); break; }
    case 2: {           // two pieces in each other's place
        size_t k = 1 + sim::choose(sim::chance(1, 2) ? 8 : 128), a = sim::choose(enc.size()), b = sim::choose(enc.size()); if (a > b) std::swap(a, b);
        if (a + k > b) k = b - a;
        if (b + k > enc.size()) k = enc.size() - b;
        for (size_t i = 0; i < k; ++i) std::swap(dmg[a + i], dmg[b + i]); n = sim::chance(2, 3) ? 0 : 1; sim::ev("%zu bytes at %zu and at %zu exchanged", k, a, b); sim::count("fault.pieces_exchanged"); break; }
    case 3: {           // another number of elements
        std::vector<size_t> c; for (size_t i = 0; i < w.size(); ++i) if (w[i].v->count() != Item::none) c.push_back(i);
        if (c.empty()) break;
        size_t i = sim::pick(c); auto at = count_place(w[i], enc); if (!at.second) break;
        uint64_t now = w[i].v->count(); static const char *const big[] = {"-1", "20000", "65535", "70000", "1000000", "4294967296", "18446744073709551615", "18446744073709551616", "99999999999999999999999", "+2", "0x3", ""};
        std::string m = sim::chance(1, 2) ? std::to_string(sim::chance(1, 2) ? now + 1 + sim::choose(3) : sim::choose(now + 1)) : big[sim::choose(12)];
        dmg = enc.substr(0, at.first) + m + enc.substr(at.second); n = sim::chance(2, 3) ? 0 : 1; sim::ev("the number of elements of object %zu is replaced by \"%s\"", i, m.c_str()); sim::count("fault.count_replaced"); break; }
    }
    dmg = damage(dmg, n, ends);
    unsigned mode = sim::choose(6); uint64_t cs = sim::word32();
    SimIn sb(dmg, mode, cs, ends); std::istream in(&sb);
    if (sim::chance(1, 8)) in.exceptions(std::ios::badbit | std::ios::failbit);
    sim::Budget b(step_budget(dmg.size())); arm(dmg.size());
    unsigned accepted = 0; bool rejected = false;
    try {
        for (size_t i = 0; i < w.size() && in; ++i) {
            ItemP r = w[i].t->blank();
            r->read(in);
            if (!in.fail()) {
                ++accepted;
                disarm(); std::string bad = r->invalid(); g_alloc_limit = ~0ull;
                if (!bad.empty()) sim::violate("accepted-invalid", "%s: damaged input accepted: %s", w[i].t->name.c_str(), bad.c_str());
                arm(dmg.size());
            }
            read_sep(w[i], in);
            if (!in) rejected = true;
        }
    } catch (const std::ios_base::failure &) { rejected = true; }
    catch (const std::exception &e) { rejected = true; sim::ev("exception %s", e.what()); sim::count("other_exception"); }
    disarm();
    sim::ev("accepted %u, rejected %d", accepted, rejected);
    sim::count("accepted_objects", accepted); sim::count(rejected ? "runs_rejected" : "runs_accepted");
    sim::set_signature(sim::event_hash()); if (dmg != enc) sim::nontrivial();
}

// ------------------------------------------------------------------ S04
// where each write call began, in an undisturbed encoding to an unbuffered device
struct Calls : std::streambuf {
    std::vector<std::pair<size_t, size_t>> c; size_t n = 0;
    int_type overflow(int_type ch) override { c.push_back({n, 1}); ++n; return traits_type::not_eof(ch); }
    std::streamsize xsputn(const char *, std::streamsize k) override { if (k) c.push_back({n, (size_t)k}); n += k; return k; }
};
// a failing device: one write call, among those of a drawn length, cut off somewhere
size_t cap_at_a_call(const std::vector<Placed> &w) {
    Calls c; std::ostream o(&c); write_all(w, o); o.flush();
    std::map<size_t, std::vector<size_t>> by; for (auto &x : c.c) by[x.second].push_back(x.first);
    auto it = by.begin(); std::advance(it, sim::choose(by.size()));
    const std::vector<size_t> &v = it->second; size_t at = sim::chance(1, 3) ? v[0] : sim::chance(1, 3) ? v.back() : sim::pick(v);
    return at + (sim::chance(2, 3) ? 0 : sim::choose(it->first));
}
void run_s04() {
    std::vector<Placed> w = workload(5);
    std::vector<ItemP> copies; std::vector<std::string> raws; for (auto &p : w) { copies.push_back(p.v->clone()); raws.push_back(p.v->raw()); }
    std::vector<size_t> ends; std::string enc = encode(w, ends);
    log_workload(w, enc);
    if (enc.empty()) return;
    auto unchanged = [&](const char *when) { for (size_t i = 0; i < w.size(); ++i) if (!w[i].v->equal(*copies[i]) || w[i].v->raw() != raws[i]) sim::violate("object-changed", "%s: the object changed %s", w[i].t->name.c_str(), when); };
    unchanged("when it was written");
    for (unsigned devices = 1 + sim::choose_w({4, 2, 1, 1}); devices--;) {
    size_t cap = sim::chance(1, 2) ? cap_at_a_call(w) : sim::choose_w({4, 1}) ? (sim::choose(2) ? enc.size() - 1 : 0) : sim::choose(enc.size());
    unsigned kind = sim::choose(3); static const size_t bs[] = {0, 0, 7, 64, 4096}; size_t bufsize = bs[sim::choose(5)];
    SimOut sb(cap, kind ? 1 : 0, bufsize); std::ostream out(&sb); sb.once = sim::chance(1, 3);
    if (kind == 2) out.exceptions(std::ios::badbit | std::ios::failbit);
    sim::ev("device takes %zu of %zu bytes, kind %u, buffer %zu, once %d", cap, enc.size(), kind, bufsize, sb.once);
    sim::Budget b(step_budget(enc.size()));
    bool reported = false;
    try { write_all(w, out); out.flush(); } catch (const DeviceError &) { reported = true; } catch (const std::ios_base::failure &) { reported = true; }
    if (out.fail()) reported = true;
    if (!sb.fired) sim::violate("unwritten", "the device was never offered the complete encoding (%zu bytes of %zu)", sb.dev.size(), enc.size());
    if (!reported) sim::violate("lost-write", "the device refused data after byte %zu and the stream reports nothing", cap);
    if (enc.compare(0, sb.dev.size(), sb.dev) != 0) sim::violate("not-a-prefix", "the device holds %zu bytes that are no prefix of the encoding", sb.dev.size());
    sim::count(kind == 0 ? "fault.output_refused" : kind == 1 ? "fault.output_error" : "fault.output_error_thrown", sb.fired); if (sb.once) sim::count("fault.output_failed_once");
    unchanged("when writing it failed");
    // retry
    SimOut sb2(~0ull, 0, bufsize); std::ostream out2(&sb2); write_all(w, out2); out2.flush();
    if (!out2 || sb2.dev != enc) sim::violate("retry", "writing again after a failure does not give the encoding");
    sim::count("torn_bytes_kept", sb.dev.size());
    }
    sim::set_signature(sim::event_hash()); sim::nontrivial();
}
sim::Register r1({"S01", prepare, run_s01}), r2({"S02", prepare, run_s02}), r3({"S03", prepare, run_s03}), r4({"S04", prepare, run_s04});
}
