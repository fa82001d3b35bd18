// Suites whose cases are whole BMS programs, decided against the reference implementation.
#pragma once
#include "bms_check.hpp"

namespace verif {

using Strings = std::vector<std::string>;
using Emit = std::function<bool(std::string_view)>;

struct Program_Suite : Suite {
    virtual Check_Options options() const { return {}; }
    void check(std::string_view c, Ctx& ctx) override { check_program(c, ctx, options()); }
};

inline std::string fill(std::string s, std::initializer_list<std::pair<char, std::string>> m)
{ // replaces $X by the text for X
    std::string r;
    for (size_t i = 0; i < s.size(); ++i) {
        if (s[i] != '$' || i + 1 == s.size()) { r += s[i]; continue; }
        char k = s[++i];
        bool done = false;
        for (auto& [c, t] : m) if (c == k) { r += t; done = true; }
        if (!done) { r += '$'; r += k; }
    }
    return r;
}

// Calls f for every sequence of n statement-like items in which braces nest; closes what is open.
template <typename F> bool all_bodies(const Strings& items, size_t n, F&& f)
{
    std::vector<size_t> idx;
    std::function<bool(std::string&, int)> go = [&](std::string& s, int open) -> bool {
        if (idx.size() == n) {
            std::string t = s;
            for (int i = 0; i < open; ++i) t += "}";
            return f(std::string_view(t));
        }
        for (size_t i = 0; i < items.size(); ++i) {
            const auto& it = items[i];
            int o = open;
            bool ok = true;
            for (char c : it) {
                if (c == '}' && --o < 0) ok = false;
                if (c == '{') ++o;
            }
            if (!ok) continue;
            size_t k = s.size();
            s += it;
            s += ' ';
            idx.push_back(i);
            bool r = go(s, o);
            idx.pop_back();
            s.resize(k);
            if (!r) return false;
        }
        return true;
    };
    std::string s;
    return go(s, 0);
}

} // namespace verif
