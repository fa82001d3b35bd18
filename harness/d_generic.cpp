// C10, C11, C12: bit-generic functions, compile-time assertions, annotations.
#include "bms_suite.hpp"
using namespace verif;
namespace {

struct Deduction : Program_Suite {
    const char* name() const override { return "generic_deduction"; }
    const char* bound(Tier t) const override
    {
        return t == Tier::quick ? "functions of 1..2 parameters from 9 kinds (generic, repeated, fixed, global-width, non-Uint) x 5 return types x 4 requires-clauses x 7 arguments per parameter, called from a constant and from a function"
                                : "the same with 1..3 parameters and 9 arguments";
    }
    void enumerate(Tier t, const Emit& emit) override
    {
        const Strings ptypes { "Uint(N)", "Uint(M)", "Uint(3)", "Uint(G)", "Int", "Bool", "Uint(N + 1)", "Uint(p)", "Void" };
        const Strings rets { "Uint(N)", "Uint(M)", "Int", "Uint(N * 2)", "Bool" };
        const Strings reqs { "", "requires N == 2", "requires N < M", "requires 128 % N == 0" };
        Strings args { "1", "true", "a", "b", "(3 as Uint(3))", "(1 as Uint(128))", "(1 as Uint(64))" };
        if (t == Tier::thorough) { args.push_back("(1 as Uint(1))"); args.push_back("v()"); }
        for (size_t np = 1; np <= (t == Tier::quick ? 2u : 3u); ++np)
            if (!all_sequences(ptypes, np, "|", [&](std::string_view ts) {
                    std::string params = "p: ";
                    char c = 'p';
                    for (char x : ts) { if (x == '|') { ++c; params += std::string(", ") + c + ": "; } else params += x; }
                    for (auto& r : rets) for (auto& q : reqs) {
                        const std::string f = "const G = 4; function v() -> Void { } function f(" + params + ") -> " + r + " " + q + " { " + (r == "Bool" ? "return p == p; } " : r == "Int" ? "return N; } " : "let r: " + r + " = 1; r = r << 1; return r; } ");
                        if (!all_sequences(args, np, ", ", [&](std::string_view as) {
                                return emit(f + "function g(a: Uint(2), b: Uint(5)) -> Int { let r = f(" + std::string(as) + "); return 1; } const t = 0 if true else g(1, 2);");
                            })) return false;
                        if (!emit(f) || !emit(f + "const t = f(1 as Uint(2)" + (np > 1 ? ", 1 as Uint(4)" : "") + (np > 2 ? ", 1 as Uint(8)" : "") + ");")) return false;
                    }
                    return true;
                })) return;
    }
};
Register<Deduction> r0;

// One generic function, several instances: each behaves like the function with its width substituted.
struct Instances : Program_Suite {
    const char* name() const override { return "generic_instances"; }
    Check_Options options() const override { return { .wide = true, .max_tuples = 4000 }; }
    const char* bound(Tier t) const override
    {
        return t == Tier::quick ? "bodies of <=2 items from 20 instantiated for 6 widths in one program, through constants, functions, other generics and recursion, run on full or boundary argument grids"
                                : "bodies of <=3 items from 20, every width 1..128 for single items";
    }
    void enumerate(Tier t, const Emit& emit) override
    {
        const Strings items { "r = r + x;", "r = ~r;", "r = r << 1;", "r = r - x;", "let k = N; if k > 3 { r = r * 3; }", "const h: Uint(N) = 1; r = r ^ h;", "let s: Uint(N); r = s;", "while r < x { r = r + 1; if r == 0 { break; } }", "if x == 1 { return r; }",
            "static_assert(N < 100);", "r = g(r);", "r = g(x) + r;", "let w = x as Uint(N); r = w;", "r = x / 3;", "r = x >> (N - 1);", "let m: Uint(M) = 1; if (m << (M - 1)) == 0 { return x; }", "const c = N * 2; r = r | (c % 2);", "r = h(x, r);", "const c = N * 2; const d = h(1 as Uint(N), 0); r = d;", "assert(x != 2);" };
        const std::string helpers = "function g(v: Uint(N)) -> Uint(N) { let y: Uint(N) = N % 2; return v * 2 if y == 0 else v + y; } function h(a: Uint(A), b: Uint(B)) -> Uint(A) { if A == B { return a; } return 0; } ";
        auto program = [&](std::string_view b, const Strings& widths) {
            std::string s = helpers + "function f(x: Uint(N), z: Uint(M)) -> Uint(N) { let r = x; " + std::string(b) + " return r; } ";
            int i = 0;
            for (auto& w : widths) s += "const t" + std::to_string(i++) + " = 0 if true else 1 if f(1 as Uint(" + w + "), 1 as Uint(3)) == 1 else 2; ";
            return emit(s + "function u(a: Uint(7)) -> Uint(7) { return f(a, a); }");
        };
        for (size_t n = 0; n <= (t == Tier::quick ? 2u : 3u); ++n)
            if (!all_bodies(items, n, [&](std::string_view b) { return program(b, { "1", "2", "4", "8", "99", "128" }); })) return;
        if (t == Tier::quick) {
            for (auto& b : items) for (int w = 1; w <= 128; w += 9) if (!program(b, { std::to_string(w) })) return;
            return;
        }
        for (auto& b : items) for (int w = 1; w <= 128; ++w) if (!program(b, { std::to_string(w) })) return;
    }
};
Register<Instances> r1;

// Which instances exist and when they are analyzed: chains of calls between generics.
struct Chains : Program_Suite {
    const char* name() const override { return "generic_chains"; }
    const char* bound(Tier t) const override
    {
        return t == Tier::quick ? "3 generic functions, each with a body from 16 (calls of each other with the same, another or a fixed width, recursion, failing requirements), 6 roots, both orders of declaration" : "the same with bodies of two such items";
    }
    void enumerate(Tier t, const Emit& emit) override
    {
        const Strings calls { "", "$y(x);", "$z(x);", "$y(1 as Uint(2));", "$x(x);", "$x(1 as Uint(4));", "$z(1 as Uint(N));", "let q: Uint(N) = true;", "return x;", "const c = $y(1 as Uint(N)); return c;", "static_assert(N == 4);", "$y(1 as Uint(N + N)); ", "if N > 4 { return x; } return $z(x);", "return $y(3);", "$y(x) @inline;", "let l: Int; l = N; return x;" };
        const Strings roots { "", "const t = a(1 as Uint(4));", "const t = 0 if true else 1 if a(1 as Uint(4)) == 0 else 2;", "function r() -> Int { a(1 as Uint(4)); return 1; }", "function r(v: Uint(3)) -> Int { b(v); a(v); c(v); return 1; }", "const t: Uint(4) = c(1 as Uint(4)); const s = a(1 as Uint(2));" };
        auto fn = [&](const std::string& x, const std::string& y, const std::string& z, const std::string& b, bool req) {
            return "function " + x + "(x: Uint(N)) -> Uint(N) " + (req ? "requires N < 64 " : "") + "{ " + fill(b, { { 'x', x }, { 'y', y }, { 'z', z } }) + " return 1; } ";
        };
        Strings bodies = calls;
        for (auto& a : calls) for (auto& b : calls) for (auto& c : calls)
            for (auto& r : roots) {
                const std::string A = fn("a", "b", "c", a, true), B = fn("b", "c", "a", b, false), C = fn("c", "a", "b", c, true);
                if (!emit(A + B + C + r) || !emit(r + C + B + A)) return;
                if (t == Tier::quick) continue;
                for (auto& a2 : calls) if (!emit(fn("a", "b", "c", a + a2, true) + B + C + r)) return;
            }
    }
};
Register<Chains> r2;

// ---- C11 --------------------------------------------------------------------------------------

struct Assertions : Program_Suite {
    const char* name() const override { return "assertions"; }
    const char* bound(Tier) const override { return "static_assert, requires and assert with 30 conditions in 14 positions (global, body, dead code, generic instance, unreached branch, called and uncalled functions)"; }
    void enumerate(Tier, const Emit& emit) override
    {
        Strings conds { "true", "false", "!true", "!false", "1 == 1", "1 == 2", "K == 3", "K != 3", "K < 4", "3 <= K", "K > 3", "K >= 4", "(1 / 0) == 1", "true || ((1 / 0) == 1)", "false && ((1 / 0) == 1)", "true && false", "false || true", "id(K) == 3", "id(K) == 4", "bad() == 1", "1", "K", "v()",
            "id(2) < id(1)", "(K == 3) == true", "(2 as Uint(2)) == 2", "(3 as Uint(2)) == 4", "true if K == 3 else false", "id(1) == 1 if false else true", "undefined", "loop(5) == 5", "(true != (K > 2))" };
        const std::string pre = "const K = 3; function id(x: Int) -> Int { return x; } function v() -> Void { } function bad() -> Int { assert(false); return 1; } function loop(n: Int) -> Int { let i = 0; while i < n { i = i + 1; } return i; } ";
        const Strings where { "static_assert($C);", "function f() -> Int { static_assert($C); return 1; }", "function f() -> Int { if false { static_assert($C); } return 1; }", "function f() -> Int { return 1; static_assert($C); }",
            "function f(x: Uint(N)) -> Int { static_assert($C); return 1; }", "function f(x: Uint(N)) -> Int { static_assert($C); return 1; } const t = f(1 as Uint(2));",
            "function f() -> Int requires $C { return 1; }", "function f(x: Uint(N)) -> Int requires $C { return 1; }", "function f(x: Uint(N)) -> Int requires $C { return N; } const t = f(1 as Uint(2)); const u = f(1 as Uint(4));",
            "function f() -> Int { assert($C); return 1; }", "function f() -> Int { assert($C); return 1; } const t = f();", "function f(b: Bool) -> Int { if b { assert($C); } return 1; } const t = f(false);", "function f(b: Bool) -> Int { if b { assert($C); } return 1; } const t = f(true);",
            "const t = assert($C);", "function f(b: Bool) -> Int { assert(b); return 1; } const t = f($C);", "const c = $C; static_assert(c); static_assert(!c);", "function f() -> Int requires $C { return 1; } const t = 0 if true else f();", "static_assert($C); static_assert(false);" };
        for (auto& w : where) for (auto& c : conds) {
            if (!emit(pre + fill(w, { { 'C', c } })) || !emit(fill(w, { { 'C', c } }) + " " + pre)) return;
            for (auto& d : { "K == 3", "false", "(1 / 0) == 1", "id(2) == 2" })
                for (auto& o : { " && ", " || ", " == " })
                    if (!emit(pre + fill(w, { { 'C', "(" + c + ")" + o + "(" + d + ")" } }))) return;
        }
    }
};
Register<Assertions> r3;

// Conditions which depend on the width: every instance is held to its own.
struct Dependent_Assertions : Program_Suite {
    const char* name() const override { return "assertions_dependent"; }
    const char* bound(Tier t) const override
    {
        return t == Tier::quick ? "12 width-dependent conditions as requires-clause, static_assert, assert or width of a bit-generic function, all sequences of <=3 instantiations with 4 widths from constants, functions or another generic function"
                                : "the same with sequences of <=4 instantiations";
    }
    void enumerate(Tier t, const Emit& emit) override
    {
        const Strings conds { "N == 2", "N != 2", "N < 5", "N >= 5", "N % 2 == 0", "(N == 2) || (N == 8)", "(N < 5) && (K < N)", "h(N) == 4", "(N == 2) == (N < 5)", "8 / (N - 2) == 1", "true if N == 5 else N < 3", "big(1 as Uint(N)) == 0" };
        const Strings forms { "function f(x: Uint(N)) -> Int requires $C { return N; } ", "function f(x: Uint(N)) -> Int { static_assert($C); return N; } ", "function f(x: Uint(N)) -> Int { assert($C); return N; } ", "function f(x: Uint(N)) -> Int { while false { if false { static_assert($C); } } return N; } ",
            "function f(x: Uint(N), y: Uint(M)) -> Int requires $C { return M; } ", "function f(x: Int, y: Uint(N)) -> Uint(1 if ($C) else 0) { return 1; } ", "function f(x: Uint(N)) -> Int requires true { return g(x); } function g(x: Uint(N)) -> Int requires $C { return N; } " };
        const std::string pre = "const K = 1; function h(x: Int) -> Int { return x * 2; } function big(x: Uint(W)) -> Int { return 1 if W > 4 else 0; } ";
        const Strings uses { "1 as Uint(2)", "2 as Uint(5)", "3 as Uint(8)", "1 as Uint(3)" };
        for (size_t fi = 0; fi < forms.size(); ++fi) for (auto& c : conds) {
            const std::string p = pre + fill(forms[fi], { { 'C', c } });
            for (size_t n = 1; n <= (t == Tier::quick ? 3u : 4u); ++n)
                if (!all_sequences(uses, n, ";", [&](std::string_view s) {
                        std::string consts, lazy, body, gen;
                        int i = 0;
                        for (size_t b = 0; b <= s.size();) {
                            size_t e = std::min(s.find(';', b), s.size());
                            std::string a(s.substr(b, e - b));
                            if (fi == 4) a += ", 1 as Uint(3)";
                            if (fi == 5) a = "1, " + a;
                            const std::string k = std::to_string(i++);
                            consts += "const t" + k + " = f(" + a + "); ";
                            lazy += "const t" + k + " = 0 if true else 1 if f(" + a + ") == 1 else 2; ";
                            body += "let t" + k + " = f(" + a + "); ";
                            b = e + 1;
                        }
                        return emit(p + consts) && emit(p + lazy) && emit(p + "function u() -> Void { " + body + "}") && emit("function u() -> Void { " + body + "} " + p) && emit(p + "function u(z: Uint(Z)) -> Int { " + body + "return 1; } const v = u(1 as Uint(1)); const w = u(1 as Uint(2));");
                    })) return;
        }
    }
};
Register<Dependent_Assertions> r3d;

// ---- C12 --------------------------------------------------------------------------------------

struct Annotations : Program_Suite {
    const char* name() const override { return "annotations"; }
    const char* bound(Tier t) const override
    {
        return t == Tier::quick ? "13 annotation names x 14 targets x all lists of <=2 arguments from 25 (and <=3 from 13), pairs of annotations on one target"
                                : "the same with <=3 arguments from 25 for each annotation's own target";
    }
    void enumerate(Tier t, const Emit& emit) override
    {
        const Strings names { "immutable", "inline", "loop_variable", "loop_step", "unroll", "c_equivalent", "java_equivalent", "instantiate", "false_if_unknown", "remove_if_unused", "inline_", "gibberish", "Unroll" };
        const Strings targets { "$A const x = 1;", "$A function f() -> Void { }", "function f() -> Void { $A let x = 1; }", "function f() -> Void { $A const x = 1; }", "function f() -> Void { let x = 1; $A x = 2; }", "function f() -> Void { $A if true { } }", "function f() -> Void { $A while true { } }",
            "function g() -> Int { return 1; } function f() -> Void { g() $A; }", "function g() -> Int { return 1; } const x = g() $A + 1;", "$A function f(x: Uint(N)) -> Int { return N; } const t = f(1 as Uint(3));", "function g() -> Int { return 3; } function f(x: Uint(g() $A)) -> Int requires g() $A == 3 { return 1; }",
            "function f() -> Void { while true { { if true { } else { $A let x = 1; } } } }", "function g(a: Int) -> Int { return a; } function f() -> Int { let r = 1 if g(g(1) $A) == 2 else g(2); return r; }", "function g() -> Int { return 3; } const x: Uint(g() $A) = 1; static_assert(g() $A == 3);" };
        Strings args { "1", "0", "128", "129", "0x80", "0b11", "true", "false", "\"s\"", "\"\"", "\"a\\\"b\"", "17", "18", "29", "limit = 4", "function = \"f\"", "include = \"i\"", "since = 99", "method = \"m\"", "n = 8", "bogus = 1", "n = 0", "170141183460469231731687303715884105727", "170141183460469231731687303715884105728", "since = 0b1011" };
        Strings few { "1", "\"s\"", "true", "function = \"f\"", "include = \"i\"", "since = 99", "since = 1", "method = \"m\"", "n = 8", "limit = 128", "limit = 129", "\"\"", "11" };
        auto on = [&](const std::string& a) { for (auto& w : targets) if (!emit(fill(w, { { 'A', a } }))) return false; return true; };
        for (auto& n : names) {
            if (!on("@" + n) || !on("@" + n + "()")) return;
            for (auto& x : args) if (!on("@" + n + "(" + x + ")")) return;
            for (auto& x : args) for (auto& y : args) if (!on("@" + n + "(" + x + ", " + y + ")")) return;
            for (auto& x : few) for (auto& y : few) for (auto& z : few) if (!emit(fill(targets[n == "unroll" ? 6 : 1], { { 'A', "@" + n + "(" + x + ", " + y + ", " + z + ")" } }))) return;
            for (auto& m : names) if (!on("@" + n + " @" + m) || !on("@" + n + "(4) @" + m + "(\"x\")") || !on("@" + n + "(\"x\") @" + m + "(4)")) return;
        }
        for (auto& x : few) for (auto& y : few) for (auto& z : few) for (auto& w : few) if (!emit("@c_equivalent(" + x + ", " + y + ", " + z + ", " + w + ") function f() -> Void { }")) return;
        if (t == Tier::quick) return;
        for (auto& n : names) for (auto& x : args) for (auto& y : args) for (auto& z : args) for (auto& w : targets)
            if (!emit(fill(w, { { 'A', "@" + n + "(" + x + ", " + y + ", " + z + ")" } }))) return;
    }
};
Register<Annotations> r4;

}
