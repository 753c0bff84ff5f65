#pragma once
#include "core.hpp"
#include <string>
#include <vector>
namespace ritems {
// One type that can be drawn at random.
struct Item {
    virtual ~Item() {}
    virtual std::string name() const = 0;
    virtual bool group() const = 0;
    virtual bool prime() const = 0;             // built over a prime field
    virtual unsigned comps() const = 0;         // base field components
    virtual size_t comp_bits() const = 0;       // bits of a component
    virtual size_t comp_words() const = 0;      // 32-bit words of a component's candidate
    // Draws an element; its canonical bytes.  bad: why it is not a valid one.
    // form 0 random_element, 1 randomize, 2 not zero, 3 neither zero nor one, 4 not the given one
    virtual std::string draw(unsigned form, const std::string &exclude, std::string &bad) = 0;
    virtual bool has(unsigned form) const = 0;
    // the elements a source that repeats one word may give (empty: the candidate is not acceptable)
    virtual std::vector<std::string> constant(uint32_t w) const = 0;
    virtual std::vector<std::vector<uint32_t>> boundary() const = 0;    // candidates around the modulus
    virtual std::string sha(uint64_t idx) const = 0;        // hash-based generator; "" if none
    virtual std::string sha_model(uint64_t idx) const = 0;
    virtual unsigned bin(const std::string &bytes, unsigned how) const = 0;   // which of 16 equal regions; how: 0 internal, 1 value
    virtual std::string work(uint64_t seed) const = 0;                  // some earlier computation
};
std::vector<Item *> &items();
extern uint64_t prior;            // decides what an object held before it is randomized
typedef void (*Init)();
std::vector<Init> &inits();
struct RegInit { RegInit(Init i) { inits().push_back(i); } };
std::vector<uint64_t> sha512_words(uint64_t idx, uint64_t iter);        // independent of the library
}
