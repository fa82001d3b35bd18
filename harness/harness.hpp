// Exhaustive-exploration harness.
//
// A Suite enumerates *every* case of a bounded space, simplest first, as a string (the serialised
// case: a source text, an encoded operation sequence, ...), and decides each case on the real code
// against an oracle.  main.cpp shards the enumeration over forked workers, so that a crash, an
// escaped exception or a hang of the code under test is attributed to the case that caused it,
// replays every candidate violation in a fresh process before reporting it, and writes counters.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <memory>
#include <optional>
#include <set>
#include <stdexcept>
#include <string>
#include <string_view>
#include <vector>

namespace verif {

enum struct Tier { quick, thorough };

struct Ctx {
    uint64_t transitions = 0; // steps performed on the implementation
    uint64_t compared = 0; // oracle comparisons with the implementation
    void outcome(std::string_view label); // histogram of what the exploration reached
    // Report that the property is violated.  `key` identifies the failing input within the case.
    void fail(std::string message);
    std::vector<std::string> failures;
};

struct Suite {
    virtual ~Suite() = default;
    virtual const char* name() const = 0;
    virtual const char* bound(Tier) const = 0; // human-readable statement of the explored space
    // Call emit for every case; stop when emit returns false.
    virtual void enumerate(Tier, const std::function<bool(std::string_view)>& emit) = 0;
    virtual void check(std::string_view c, Ctx&) = 0;
    virtual unsigned hang_seconds() const { return 20; }
    virtual bool isolate_stdout() const { return true; }
};

std::vector<Suite*>& suites();

// The property for which the suite runs; some suites serve several and compare more for one of them.
inline std::string g_property;

template <typename T> struct Register {
    Register() { suites().push_back(new T()); }
};

// ---- enumeration helpers -------------------------------------------------------------------

// All strings over `alphabet` (a list of lexemes) of exactly n lexemes, joined with sep.
template <typename F>
bool all_sequences(const std::vector<std::string>& alphabet, size_t n, std::string_view sep, F&& f)
{
    std::vector<size_t> idx(n, 0);
    std::string s;
    while (true) {
        s.clear();
        for (size_t i = 0; i < n; ++i) {
            if (i) s += sep;
            s += alphabet[idx[i]];
        }
        if (!f(std::string_view(s))) return false;
        size_t k = n;
        while (k > 0) {
            if (++idx[k - 1] < alphabet.size()) break;
            idx[k - 1] = 0;
            --k;
        }
        if (k == 0) return true;
    }
}

std::string escape(std::string_view); // C-like escaping, single line
std::string unescape(std::string_view);

} // namespace verif
