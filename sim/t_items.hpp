// Operations that concurrent threads run over shared operands.
#pragma once
#include "core.hpp"
#include <exception>
#include <functional>
#include <string>
#include <vector>
namespace titems {
struct P {                      // what a step works on, drawn before the threads start
    uint64_t w[6];
    uint64_t operator[](int i) const { return w[i]; }
};
struct Op {
    std::string name; unsigned level;       // 1 field 2 group 3 pairing
    unsigned cost;                          // 0 cheap .. 3 very dear
    std::function<std::string(const P &)> f;
    std::function<bool(const std::string &, const std::string &)> same;     // null: same bytes
};
std::vector<Op> &ops();
struct Shared {                 // operands: made in another process, so that the library's state here stays as initialised
    virtual ~Shared() {}
    virtual void make() = 0; virtual std::string dump() const = 0; virtual void load(const std::string &) = 0;
};
std::vector<Shared *> &shared();
// A stream that failed: how an operation on streams reports a failure.
struct StreamFailed { };
// What an operation works on in place, and its value before: if the operation fails, it must still be there.
extern void (*calm)(bool);      // no allocation fails while calm
extern thread_local unsigned place;   // of the next operand in the thread's own
// What the calling thread prints to stdout between catch_text(true) and catch_text(false).
void catch_text(bool); size_t caught_text(const char *&);
extern const char *damaged;     // what was lost
template<class V> struct Kept {
    const V &v; V was; const char *what;
    static V copy(const V &v) { if (calm) calm(true); V c(v); if (calm) calm(false); return c; }
    Kept(const V &v, const char *what) : v(v), was(copy(v)), what(what) {}
    ~Kept() { if (std::uncaught_exception()) { if (calm) calm(true); if (!(v == was)) damaged = what; if (calm) calm(false); } }
};
// A curve (or the binary fields): registering it names its operations and operands, and does not touch the library.
typedef std::vector<std::pair<std::string, std::string>> Params;
struct Curve { std::string name; void (*enroll)(); void (*init)(); Params (*params)(); size_t shared_from = 0, shared_to = 0; };
std::vector<Curve> &curves();
struct RegCurve { RegCurve(const Curve &c) { curves().push_back(c); } };
void enroll_all();
// precomputed pairing values: made once per run, on demand, by whoever runs
struct Precomps { virtual ~Precomps() {} virtual void make(unsigned n) = 0; virtual bool ready() const = 0; virtual uint64_t digest() const = 0; };
std::vector<Precomps *> &precomps();
}
