// C04: every name refers to the declaration that the scoping rules designate, or is diagnosed.
#include "bms_suite.hpp"
using namespace verif;
namespace {

struct Bodies : Program_Suite {
    const char* name() const override { return "names_bodies"; }
    const char* bound(Tier t) const override
    {
        return t == Tier::quick ? "function bodies of <=3 items from 66 (declare/assign/use one of 4 names, open/close block, if, else, while) plus <=4 items from 22; all with a parameter, a generic width, a global and a builtin in scope"
                                : "the same with <=4 of 66 and <=6 of 22 items";
    }
    void enumerate(Tier t, const Emit& emit) override
    {
        Strings big, small;
        const Strings names { "a", "p", "N", "g" }, uses { "a", "b", "p", "g" };
        for (auto& x : names) {
            for (auto& y : { "1", "a", "p", "g" }) { big.push_back("let " + x + " = " + y + ";"); big.push_back("const " + x + " = " + y + ";"); }
            big.push_back("let " + x + ": Int;");
            big.push_back(x + " = 2;");
            big.push_back("return " + x + ";");
            big.push_back("let " + x + ": Uint(" + x + ") = 1;");
            big.push_back(x + "();");
        }
        for (auto& y : { "b", "assert", "f" }) { big.push_back(std::string(y) + " = a;"); big.push_back("return " + std::string(y) + ";"); big.push_back("let " + std::string(y) + " = 1;"); }
        big.insert(big.end(), { "{", "}", "if a == 1 {", "} else {", "while a == 1 {", "a = a + 1;" , "static_assert(a == 1);", "static_assert(N == 8);" });
        small = { "let a = 1;", "let b = a;", "const a = 3;", "const b = a;", "let a = b;", "a = 2;", "b = 4;", "a = b;", "let g = 1;", "let p = 1;", "return a;", "return b;", "{", "}", "if true {", "} else {", "let b: Int;", "b = p;", "let N = 1;", "const b = g + N;", "let a = a;", "static_assert(b == 3);" };
        auto run = [&](const Strings& items, size_t n) {
            return all_bodies(items, n, [&](std::string_view b) {
                return emit("const g = 7; function f(p: Int, q: Uint(N)) -> Int { " + std::string(b) + " return 5; } const t = 0 if true else f(1, 2 as Uint(8));");
            });
        };
        const size_t d = t == Tier::quick ? 0 : 1;
        for (size_t n = 0; n <= 3 + d; ++n) if (!run(big, n)) return;
        for (size_t n = 4; n <= 4 + 2 * d; ++n) if (!run(small, n)) return;
    }
};
Register<Bodies> r0;

struct Globals : Program_Suite {
    const char* name() const override { return "names_globals"; }
    const char* bound(Tier t) const override
    {
        return t == Tier::quick ? "all programs of <=3 global declarations from 44 over names a, b (constants, functions, static assertions using each other before and after declaration)"
                                : "the same with <=4 declarations";
    }
    void enumerate(Tier t, const Emit& emit) override
    {
        Strings items;
        for (auto& x : { std::string("a"), std::string("b") }) {
            const std::string y = x == "a" ? "b" : "a";
            for (auto& s : Strings { "const $x = 1;", "const $x = $y;", "const $x = $x;", "const $x = $y();", "const $x = $y(1);", "const $x = 1 if true else $y();", "const $x: Uint($y) = 1;",
                     "function $x() -> Int { return 2; }", "function $x() -> Int { return $y; }", "function $x() -> Int { return $y(); }", "function $x() -> Int { return $x(); }",
                     "function $x($y: Int) -> Int { return $y; }", "function $x($x: Int) -> Int { return 1; }", "function $x(p: Uint($y)) -> Int { return $y; }", "function $x(p: Int) -> Int { let $y = p; return $y; }",
                     "function $x(p: Int, p: Int) -> Int { return 1; }", "function $x() -> Uint($y) { return 1; }", "function $x() -> Int requires $y == 1 { return 4; }", "static_assert($x == 1);", "static_assert($x() == 2);", "const assert = $x;", "function $x(assert: Int) -> Int { return assert; }",
                     "function $x(p: Uint(M), q: Uint(M)) -> Int { return M; }", "const $x = $y(1, 2 as Uint(3));" })
                items.push_back(fill(s, { { 'x', x }, { 'y', y } }));
        }
        for (size_t n = 1; n <= (t == Tier::quick ? 3u : 4u); ++n)
            if (!all_sequences(items, n, "\n", emit)) return;
    }
};
Register<Globals> r1;
}
