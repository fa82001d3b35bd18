// C08, C09, C14: control flow, calls and frames, virtual machine state.
#include "bms_suite.hpp"
using namespace verif;
namespace {

struct Flow : Program_Suite {
    const char* name() const override { return "control_flow"; }
    const char* bound(Tier t) const override
    {
        return t == Tier::quick ? "all function bodies of <=5 items from 17 (assignments, nested blocks, if, else, else-if, while, break, continue, return) that nest, run on all 4 inputs"
                                : "the same with <=6 items";
    }
    void enumerate(Tier t, const Emit& emit) override
    {
        const Strings items { "x = x * 3;", "x = x + 1;", "i = i + 1;", "if a {", "if x > 1 {", "} else {", "} else if b {", "while i < 2 {", "while a {", "break;", "continue;", "return x;", "{", "}", "let y: Int;", "return;", "x = x / i;" };
        for (size_t n = 0; n <= (t == Tier::quick ? 5u : 6u); ++n)
            if (!all_bodies(items, n, [&](std::string_view b) {
                    return emit("function f(a: Bool, b: Bool) -> Int { let x = 1; let i = 0; " + std::string(b) + " return x + i; } const t = 0 if true else f(true, true);");
                })) return;
    }
};
Register<Flow> r0;

// The last statements of a function: falling off the end, of any return type.
struct Ends : Program_Suite {
    const char* name() const override { return "function_ends"; }
    const char* bound(Tier t) const override
    {
        return t == Tier::quick ? "all bodies of <=4 items from 14 as the whole body of functions of return type Void, Int, Bool, Uint(2), followed by another function in the virtual machine"
                                : "the same with <=5 items";
    }
    void enumerate(Tier t, const Emit& emit) override
    {
        for (auto& [ty, e, two] : { std::tuple<std::string, std::string, std::string> { "Void", "v()", "z()" }, { "Int", "1", "x" }, { "Bool", "a", "true" }, { "Uint(2)", "3", "x" } }) {
            const Strings items { "if a {", "} else {", "}", "while a {", "while true {", "break;", "continue;", "return;", "return " + e + ";", "return " + two + ";", "{", "let x = 7;", "v();", "assert(a);" };
            for (size_t n = 0; n <= (t == Tier::quick ? 4u : 5u); ++n)
                if (!all_bodies(items, n, [&, ty = ty](std::string_view b) {
                        return emit("function v() -> Void { } function z() -> Void { v(); return; } function f(a: Bool) -> " + ty + " { " + std::string(b) + " } function g(a: Bool) -> " + ty
                            + " { let r = f(a); return r; } function h(a: Bool) -> Int { f(a); return 4; } const t = 0 if true else h(true) if g(true) == f(true) else 1;");
                    })) return;
        }
    }
};
Register<Ends> r1;

// Whole bodies as constant evaluations: the value, the error, or the diagnosis of an endless loop.
struct Constant_Flow : Program_Suite {
    const char* name() const override { return "constant_flow"; }
    const char* bound(Tier t) const override
    {
        return t == Tier::quick ? "all function bodies of <=3 items from 17 (assignments, if, else, else-if, while, break, continue, return) that nest, constant-evaluated on all 4 inputs"
                                : "the same with <=4 items";
    }
    void enumerate(Tier t, const Emit& emit) override
    {
        const Strings items { "x = x * 3;", "x = x + 1;", "i = i + 1;", "if a {", "if x > 1 {", "} else {", "} else if b {", "while i < 2 {", "while a {", "break;", "continue;", "return x;", "{", "}", "let y: Int;", "return y;", "x = x / i;" };
        for (size_t n = 0; n <= (t == Tier::quick ? 3u : 4u); ++n)
            if (!all_bodies(items, n, [&](std::string_view b) {
                    for (const char* args : { "true, true", "true, false", "false, true", "false, false" })
                        if (!emit("function f(a: Bool, b: Bool) -> Int { let x = 1; let i = 0; " + std::string(b) + " return x + i; } const t = f(" + args + "); function g() -> Int { return t - 1; } const u = g();")) return false;
                    return true;
                })) return;
    }
};
Register<Constant_Flow> r_constant_flow;

struct Constant_Endless : Program_Suite {
    const char* name() const override { return "constant_endless"; }
    const char* bound(Tier) const override { return "14 terminating and endless calls in 6 kinds of constants"; }
    void enumerate(Tier, const Emit& emit) override
    {
        for (const char* e : { "l()", "0 if true else l()", "l() if true else 0", "m(3)", "m(0)", "n(1000)", "n(1000) if n(2) == 2 else 1", "l() + 1", "-l()", "m(l())", "true && l() == 1", "false && l() == 1", "o(2)", "o(1)" })
            for (const char* s : { "const t = %;", "const t = 1; function g() -> Int { const k = %; return k; }", "static_assert(% == 1000);", "function g() -> Int { static_assert(% != 0); return 1; }", "function g() -> Uint(%) { return 1; }", "const k: Uint(%) = 0;" })
                if (!emit("function l() -> Int { while true { } return 1; } function m(x: Int) -> Int { let y = x; while y > 0 { if y == 2 { continue; } y = y - 1; } return y; } function n(x: Int) -> Int { let y = 0; while y < x { y = y + 1; } return y; } function o(x: Int) -> Int { return 5 if x == 1 else l(); } "
                        + std::string(s).replace(std::string(s).find('%'), 1, e))) return;
    }
};
Register<Constant_Endless> r_constant_endless;

// Loop variables: fresh declarations, shadow-free scopes, values surviving iterations.
struct Loops : Program_Suite {
    const char* name() const override { return "loops"; }
    const char* bound(Tier t) const override
    {
        return t == Tier::quick ? "all doubly nested loops whose two bodies hold <=3 and <=2 items from 13 and 8"
                                : "the same with <=3 and <=3 items";
    }
    void enumerate(Tier t, const Emit& emit) override
    {
        const Strings outer { "let y: Int;", "y = x;", "x = y + 1;", "let z = x;", "x = x + z;", "if i == n { break; }", "if i == 1 { continue; }", "if x > 3 { return x; }", "x = x + i;", "const c = 2;", "x = x * c;", "let w: Uint(3) = 7;", "if w > 6 { x = x + 10; }" };
        const Strings inner { "let k: Int;", "k = j;", "x = x + k;", "if j == 1 { continue; }", "if i == 1 { break; }", "x = x + 5;", "if x > 40 { return j; }", "y = 1;" };
        for (size_t n = 0; n <= 3; ++n)
            if (!all_bodies(outer, n, [&](std::string_view b) {
                    for (size_t m = 0; m <= (t == Tier::quick ? 2u : 3u); ++m)
                        if (!all_bodies(inner, m, [&](std::string_view in) {
                                return emit("function f(n: Int) -> Int { let x = 0; let i = 0; while i < 3 { i = i + 1; " + std::string(b) + " let j = 0; while j < 2 { j = j + 1; " + std::string(in) + " } } return x; } const t = 0 if true else f(1);");
                            })) return false;
                    return true;
                })) return;
    }
};
Register<Loops> r2;

struct Calls : Program_Suite {
    const char* name() const override { return "calls"; }
    const char* bound(Tier t) const override
    {
        return t == Tier::quick ? "all three-function programs whose bodies hold <=2, <=2 and <=2 items from 11, 8 and 5 (nested calls, calls in conditions, arguments and loops, same-named locals, early returns, failing callees)"
                                : "the same with <=3, <=2 and <=2 items";
    }
    void enumerate(Tier t, const Emit& emit) override
    {
        const Strings fi { "x = g(x, n);", "x = g(n, x) - g(x, 1);", "x = x + h(x);", "let y = h(h(n));", "x = x + y;", "if g(n, n) > h(n) { return x; }", "while h(x) < 3 { x = x + 1; }", "v(x);", "x = g(h(x), h(n) + 1);", "let u: Uint(3) = h(n);", "x = g(1, 2) if n > 0 else g(2, n);" };
        const Strings gi { "x = h(b) - a;", "let y: Int;", "y = a;", "x = x * y;", "if a > b { return h(x); }", "x = x / b;", "v(a);", "return a - b;" };
        const Strings hi { "x = x * 2;", "if n < 0 { return 1; }", "let y: Int;", "y = x + 1;", "assert(n != 3);" };
        for (size_t l = 0; l <= 2; ++l)
            if (!all_bodies(hi, l, [&](std::string_view hb) {
                    for (size_t m = 0; m <= 2; ++m)
                        if (!all_bodies(gi, m, [&](std::string_view gb) {
                                for (size_t n = 1; n <= (t == Tier::quick ? 2u : 3u); ++n)
                                    if (!all_bodies(fi, n, [&](std::string_view fb) {
                                            return emit("function v(x: Int) -> Void { let y = x + 1; return; } function f(n: Int) -> Int { let x = n; " + std::string(fb) + " return x; } function g(a: Int, b: Int) -> Int { let x = a; "
                                                + std::string(gb) + " return x; } function h(n: Int) -> Int { let x = n; " + std::string(hb) + " return x; } const t = 0 if true else f(1);");
                                        })) return false;
                                return true;
                            })) return false;
                    return true;
                })) return;
    }
};
Register<Calls> r3;

// Parameters and arguments: order, conversion, count.
struct Arguments : Program_Suite {
    const char* name() const override { return "arguments"; }
    const char* bound(Tier t) const override
    {
        return t == Tier::quick ? "functions of 0..3 parameters of types Bool, Int, Uint(2), Uint(3), Void x 0..3 arguments from 9, called in a constant, a statement, a condition and another call; evaluation order observed through failing arguments"
                                : "the same with 0..4 arguments";
    }
    void enumerate(Tier t, const Emit& emit) override
    {
        const Strings types { "Bool", "Int", "Uint(2)", "Uint(3)", "Void" };
        const Strings args { "1", "true", "i", "b", "u", "e()", "d()", "5", "v()" };
        for (size_t np = 0; np <= 3; ++np)
            if (!all_sequences(types, np, " ", [&](std::string_view ts) {
                    std::string params, uses;
                    size_t k = 0;
                    std::string rest(ts);
                    while (k < np) {
                        auto e = rest.find(' ');
                        std::string ty = rest.substr(0, e);
                        rest = e == rest.npos ? "" : rest.substr(e + 1);
                        const std::string p = std::string(1, char('p' + k));
                        params += (k ? ", " : "") + p + ": " + ty;
                        if (ty == "Bool") uses += "if " + p + " { x = x * 3; } ";
                        else if (ty == "Int") uses += "x = x + " + p + "; ";
                        else if (ty != "Void") uses += "if " + p + " > 1 { x = x * 5; } ";
                        ++k;
                    }
                    const std::string f = "function f(" + params + ") -> Int { let x = 2; " + uses + "return x; } function e() -> Int { return 1 / 0; } function d() -> Int { assert(false); return 1; } function v() -> Void { } ";
                    for (size_t n = 0; n <= (t == Tier::quick ? 3u : 4u); ++n) {
                        if (n > np + 1 || n + 1 < np) continue;
                        if (!all_sequences(args, n, ", ", [&](std::string_view as) {
                                std::string call = "f(" + std::string(as) + ")";
                                return emit(f + "function g(i: Int, b: Bool, u: Uint(2)) -> Int { return " + call + "; } const t = 0 if true else g(1, true, 1);")
                                    && (as.find_first_of("ibu") != as.npos || emit(f + "const t = " + call + ";"));
                            })) return false;
                    }
                    return true;
                })) return;
        const Strings uses { "f(1, true, 2);", "if f(i, b, u) > 1 { return 3; }", "let x = f(f(1, b, 1), b, 3);", "while f(1, b, u) < 0 { }", "return f(i, f(1, b, 1) == 1, 1);" };
        for (auto& a : uses) for (auto& b : uses)
            if (!emit("function f(p: Int, q: Bool, r: Uint(3)) -> Int { if q { return p; } if r > 1 { return 7; } return 9; } function g(i: Int, b: Bool, u: Uint(3)) -> Int { " + a + " " + b + " return 0; } const t = 0 if true else g(1, true, 1);")) return;
    }
};
Register<Arguments> r4;

// Short-circuit and conditional evaluation: which operands are evaluated at all.
struct Lazy : Program_Suite {
    const char* name() const override { return "lazy_evaluation"; }
    const char* bound(Tier) const override { return "all combinations of &&, ||, if-else nested twice over 7 operands which may fail, at run time, in constants and in statements"; }
    void enumerate(Tier, const Emit& emit) override
    {
        const Strings ops { "a", "b", "true", "false", "e()", "(x / 0) == 1", "(i == 1)" };
        const std::string pre = "const x = 1; function e() -> Bool { assert(false); return true; } ";
        auto one = [&](const std::string& e) {
            if (!emit(pre + "function f(a: Bool, b: Bool, i: Int) -> Bool { return " + e + "; } const t = 0 if true else 1 if f(true, true, 1) else 2;")) return false;
            if (!emit(pre + "function f(a: Bool, b: Bool, i: Int) -> Int { let r = 1; if " + e + " { r = 2; } while " + e + " { return r + 2; } return r; } const t = f(true, false, 1);")) return false;
            if (e.find_first_of("abi") == e.npos || e.find("a") == e.npos) if (!emit(pre + "const a = true; const b = false; const i = 1; const t = " + e + ";")) return false;
            return emit(pre + "const a = true; const b = false; const i = 1; const t = " + e + ";");
        };
        auto par = [](const std::string& s) { return "(" + s + ")"; };
        Strings d1;
        for (auto& x : ops) for (auto& y : ops) for (auto& o : { "&&", "||" }) d1.push_back(par(par(x) + " " + o + " " + par(y)));
        for (auto& x : ops) for (auto& y : ops) for (auto& z : ops) d1.push_back(par(par(x) + " if " + par(y) + " else " + par(z)));
        for (auto& e : d1) if (!one(e)) return;
        for (auto& e : d1) for (auto& x : ops) for (auto& o : { "&&", "||" }) {
            if (!one(e + " " + o + " " + par(x)) || !one(par(x) + " " + o + " " + e)) return;
        }
        for (auto& e : d1) for (auto& x : ops) if (!one(par(x) + " if " + e + " else true") || !one("false if " + par(x) + " else " + e)) return;
    }
};
Register<Lazy> r5;

}
