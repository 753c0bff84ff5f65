// What the drivers over titems share: the registry, and processes of their own.
// Included by one source of each program.
#pragma once
#include "t_items.hpp"
#include <cstdio>
#include <cstring>
#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>
namespace titems {
void (*calm)(bool); const char *damaged; thread_local unsigned place;
std::vector<Op> &ops() { static std::vector<Op> v; return v; }
std::vector<Shared *> &shared() { static std::vector<Shared *> v; return v; }
std::vector<Curve> &curves() { static std::vector<Curve> v; return v; }
void enroll_all() { for (auto &c : curves()) { c.shared_from = shared().size(); c.enroll(); c.shared_to = shared().size(); } }
std::vector<Precomps *> &precomps() { static std::vector<Precomps *> v; return v; }
// Runs f in a forked child and returns what it wrote; ok: it ended normally.
inline std::string aside(const std::function<std::string()> &f, bool &ok) {
    int fd[2]; if (pipe(fd)) sim::harness_error("pipe");
    fflush(stdout); pid_t p = fork();
    if (p < 0) sim::harness_error("fork");
    if (p == 0) {
        close(fd[0]); std::string s;
        try { s = "k" + f(); } catch (const std::exception &e) { s = std::string("x") + e.what(); }
        for (size_t i = 0; i < s.size();) { ssize_t k = write(fd[1], s.data() + i, s.size() - i); if (k <= 0) _exit(3); i += k; }
        _exit(0);
    }
    close(fd[1]); std::string s; char b[65536]; ssize_t k; while ((k = read(fd[0], b, sizeof b)) > 0) s.append(b, k);
    close(fd[0]); int st; while (waitpid(p, &st, 0) < 0) {}
    ok = WIFEXITED(st) && WEXITSTATUS(st) == 0; return s;
}
// stdout: unbuffered, nothing leaves the process, and each thread's text can be caught.
static thread_local char text_[1 << 14]; static thread_local size_t ntext; static thread_local bool catching;
void catch_text(bool on) { if (on) ntext = 0; catching = on; }
size_t caught_text(const char *&p) { p = text_; return ntext; }
inline void text_device() {
    int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); fflush(stdout);
    cookie_io_functions_t io = {nullptr, [](void *, const char *b, size_t n) -> ssize_t { if (catching) { size_t k = std::min(n, sizeof text_ - ntext); memcpy(text_ + ntext, b, k); ntext += k; } return n; }, nullptr, nullptr};
    stdout = fopencookie(nullptr, "w", io); setvbuf(stdout, nullptr, _IONBF, 0);
}
inline void put(std::string &o, const std::string &s) { uint64_t n = s.size(); o.append((const char *)&n, 8); o += s; }
inline std::string get(const std::string &s, size_t &i) { uint64_t n; memcpy(&n, s.data() + i, 8); std::string r = s.substr(i + 8, n); i += 8 + n; return r; }
// One operation: "k" and its result, or "x" and how it failed.
static void (*prelude)();       // called before each operation
inline std::string attempt(const Op &op, const P &p) { place = 0; if (prelude) prelude(); try { return "k" + op.f(p); } catch (const std::exception &e) { return std::string("x") + e.what(); } catch (const StreamFailed &) { return "xstream failed"; } }
inline bool same_outcome(const Op &op, const std::string &a, const std::string &b) { return a == b || (op.same && a[0] == 'k' && b[0] == 'k' && op.same(a.substr(1), b.substr(1))); }
// The operands, made in another process so that the library's state here stays as initialised.
inline void load_operands(std::vector<std::string> &raw) {
    bool ok; std::string s = aside([] { std::string o; for (auto x : shared()) { x->make(); put(o, x->dump()); } return o; }, ok);
    if (!ok || s.empty() || s[0] != 'k') sim::harness_error("the operands could not be made (%s)", s.substr(0, 100).c_str());
    size_t i = 1; for (auto x : shared()) { raw.push_back(get(s, i)); x->load(raw.back()); }
}
}
