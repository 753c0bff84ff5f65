// Serialisable objects of the library behind one interface.
#pragma once
#include "core.hpp"
#include <functional>
#include <istream>
#include <memory>
#include <ostream>
#include <string>
#include <vector>

namespace sitems {
struct Item;
typedef std::unique_ptr<Item> ItemP;
struct Item {
    virtual ~Item() {}
    virtual void write(std::ostream &) const = 0;
    virtual void read(std::istream &) = 0;
    virtual bool equal(const Item &) const = 0;
    virtual ItemP clone() const = 0;
    virtual ItemP respell(unsigned how) const = 0;       // same value, another internal representation
    virtual ItemP again() const { return clone(); }      // through reserialize()
    static constexpr size_t none = ~(size_t)0;
    virtual size_t count() const { return none; }        // elements, for what is written as a count and its elements
    virtual bool count_inside() const { return false; }  // the count does not come first
    virtual std::string raw() const { return ""; }       // its memory, where that is all there is to it
    virtual std::string invalid() const = 0;             // "" or what is wrong with the value
};
struct Type {
    std::string name;
    bool terminated;             // containers end themselves; others are followed by a separator
    bool plain = false;          // an integer: always followed by a plain newline
    unsigned weight;             // relative cost
    std::function<ItemP()> make;     // from decisions
    std::function<ItemP()> blank;
};
std::vector<Type> &types();
// machine-word decoding (from_words / to_words)
struct WordsType {
    std::string name;
    std::function<void()> run;   // one round trip plus one damaged decode, from decisions
};
std::vector<WordsType> &words_types();
typedef void (*Init)();
std::vector<Init> &inits();
struct RegInit { RegInit(Init i) { inits().push_back(i); } };
}
