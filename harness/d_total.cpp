// C13 (totality) and C28 (diagnostics): everything the library does with a BMS source text, over the
// program spaces of the other drivers (linked into this one) and spaces of its own.
#include "bms_total.hpp"
#include "bms_suite.hpp"
using namespace verif;
namespace {

struct Total : Suite {
    std::string own, inner;
    explicit Total(std::string inner) : own("total_" + inner), inner(std::move(inner)) { }
    const char* name() const override { return own.c_str(); }
    Suite& target() const
    {
        for (auto* s : suites()) if (s->name() == inner) return *s;
        std::abort();
    }
    const char* bound(Tier t) const override { return target().bound(t); }
    unsigned hang_seconds() const override { return std::max(20u, target().hang_seconds()); }
    void enumerate(Tier t, const Emit& e) override { target().enumerate(t, e); }
    void check(std::string_view c, Ctx& ctx) override { check_total(c, ctx); }
};
// What diagnostics and run-time errors name as their causes.
struct Causes : Total {
    explicit Causes(std::string inner) : Total(std::move(inner)) { own = "causes_" + this->inner; }
    void check(std::string_view c, Ctx& ctx) override { check_program(c, ctx, { .causes = true }); }
};
struct Register_All {
    Register_All()
    {
        for (auto s : { "lex_strings", "lex_lexemes", "syntax_tokens", "syntax_edits", "syntax_trees", "syntax_depth", "names_globals", "names_bodies", "typing_expressions", "typing_statements", "operators_partial", "lazy_evaluation", "scale", "sequences",
                        "arguments", "control_flow", "constant_endless", "function_ends", "loops", "calls", "generic_deduction", "generic_instances", "generic_chains", "assertions", "assertions_dependent", "annotations" })
            suites().push_back(new Total(s));
        for (auto s : { "names_globals", "names_bodies", "typing_expressions", "typing_statements", "operators_partial", "lazy_evaluation", "scale", "sequences",
                        "arguments", "constant_endless", "function_ends", "loops", "calls", "generic_deduction", "generic_instances", "generic_chains", "assertions", "assertions_dependent", "annotations" })
            suites().push_back(new Causes(s));
    }
} register_all;

// Arbitrary bytes and fragments.
struct Bytes : Suite {
    const char* name() const override { return "total_bytes"; }
    const char* bound(Tier t) const override
    {
        return t == Tier::quick ? "all byte strings of length <=2 (all 256 byte values), all strings of <=4 of 26 characters, all sequences of <=3 of 44 program fragments, alone and after a declaration"
                                : "all byte strings of length <=2, all strings of <=5 of 26 characters, all sequences of <=4 of 44 program fragments, alone and after a declaration";
    }
    void enumerate(Tier t, const Emit& emit) override
    {
        const bool q = t == Tier::quick;
        std::string s;
        if (!emit("")) return;
        for (int a = 0; a < 256; ++a) { s = char(a); if (!emit(s) || !emit("const x = 1;" + s) || !emit("const x = \"" + s + "\";") || !emit("/* " + s + " */ const x = 1;")) return; }
        for (int a = 0; a < 256; ++a)
            for (int b = 0; b < 256; ++b) { s = { char(a), char(b) }; if (!emit(s)) return; }
        Strings chars;
        for (char c : std::string_view("a1\"/*\n\t\r @(){};:=<>-&|!0x")) chars.push_back({ c });
        for (size_t n = 3; n <= (q ? 4u : 5u); ++n) if (!all_sequences(chars, n, "", emit)) return;
        const Strings fragments { "const", "x", "= 1", "= x", ";", "function f", "(", ")", "-> Int", "-> Void", "{", "}", "return", "if", "else", "while", "let", ": Uint", ": Int", "break;", "continue;", "static_assert", "requires", "@inline", "@a", ",", "true", "1", "x: Int",
            "x: Uint(N)", "==", "+", "as", "!", "\"s\"", "0x", "0xg", "/*", "//", "340282366920938463463374607431768211456", "assert", "\t", "\r", "\n" };
        for (size_t n = 1; n <= (q ? 3u : 4u); ++n) {
            if (!all_sequences(fragments, n, " ", emit)) return;
            if (!all_sequences(fragments, n, " ", [&](std::string_view x) { return emit("const y = 1;\n" + std::string(x)); })) return;
        }
    }
    void check(std::string_view c, Ctx& ctx) override { check_total(c, ctx); }
};
Register<Bytes> r0;

// Widths and literals at the limits, everywhere a width can be written.
struct Limits : Suite {
    const char* name() const override { return "total_limits"; }
    const char* bound(Tier) const override { return "23 width/value expressions in each of 16 contexts, all pairs of expressions"; }
    void enumerate(Tier, const Emit& emit) override
    {
        const Strings e { "0", "1", "-1", "64", "128", "129", "127", "170141183460469231731687303715884105727", "170141183460469231731687303715884105728", "(-170141183460469231731687303715884105727) - 1", "0 - 5", "w", "u", "b", "v()", "f(1)", "x", "1 if true else 2", "200 as Uint(8)", "300 as Uint(8)", "true", "1 == 1", "1 / 0" };
        const Strings c { "const a: Uint($x) = $y;", "const a = $y as Uint($x);", "function g(p: Uint($x)) -> Uint($y) { return p; }", "function g() -> Int { let a: Uint($x) = $y; return a as Int; }", "function g(p: Uint(N), q: Uint($x)) -> Int { return N; } const a = g($y, $x);",
            "static_assert(($x) == ($y));", "function g() -> Int requires ($x) == ($y) { return 1; }", "function g() -> Int { assert(($x) == ($y)); return 1; } const a = g();", "const a = f($x); const b1 = f($y);", "function g() -> Int { @unroll($x) while true { break; } return $y; }", "const a = ($x) << ($y);", "function g(p: Int) -> Int { return p + ($x); } const a = g($y);",
            "function g(p: Int) -> Int { let r: Int; if p == ($x) { r = $y; } return r; } const a = g($y);", "const a = -($x); const c1 = ~($y);", "function g() -> Bool { while ($x) { return $y; } return true; }", "const a = 1 if $x else $y;" };
        for (auto& k : c)
            for (auto& x : e)
                for (auto& y : e)
                    if (!emit("const w = 8; const u: Uint(16) = 300; const b = true; function v() -> Void { } function f(n: Int) -> Int { assert(n < 8); return n; }\n\t" + fill(k, { { 'x', x }, { 'y', y } }) + "\n")) return;
    }
    void check(std::string_view c, Ctx& ctx) override { check_total(c, ctx); }
};
Register<Limits> r1;
}
