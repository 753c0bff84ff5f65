#pragma once
#include "core.hpp"
#include <string>
#include <vector>
namespace mitems {
struct Group {
    virtual ~Group() {}
    virtual std::string name() const = 0;
    virtual bool cheap() const = 0;
    virtual size_t scalar_bits() const = 0;
    virtual void multiexp() = 0;
    virtual void fixed_base() = 0;
    virtual void batch_special() = 0;
    virtual void batch_inv() = 0;
};
std::vector<Group *> &groups();
typedef void (*Init)();
std::vector<Init> &inits();
struct RegInit { RegInit(Init i) { inits().push_back(i); } };
void start();    // the concurrent part of the run begins / ends
void stop();
}
