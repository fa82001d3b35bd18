// Sizes: every construct repeated, nested or chained n times, for all small n and around powers of two.
#include "bms_suite.hpp"
#include "ref_lex.hpp"
using namespace verif;
namespace {

std::vector<int> sizes(Tier t)
{
    std::vector<int> r;
    for (int i = 0; i <= 20; ++i) r.push_back(i);
    for (int p : { 32, 64, 128, 256 }) for (int d : { -1, 0, 1 }) r.push_back(p + d);
    for (int i : { 26, 50, 99, 100, 101 }) r.push_back(i);
    if (t == Tier::thorough) {
        for (int i = 21; i < 127; ++i) r.push_back(i);
        for (int p : { 512, 1024 }) for (int d : { -1, 0, 1 }) r.push_back(p + d);
    }
    return r;
}
// f(0) sep f(1) sep ... f(n - 1)
std::string each(int n, const std::function<std::string(int)>& f, const char* sep = " ")
{
    std::string r;
    for (int i = 0; i < n; ++i) r += (i ? sep : "") + f(i);
    return r;
}
std::string rep(const std::string& s, int n) { return each(n, [&](int) { return s; }, ""); }
std::string S(int i) { return std::to_string(i); }

struct Scale : Program_Suite {
    const char* name() const override { return "scale"; }
    unsigned hang_seconds() const override { return 60; }
    Check_Options options() const override { Check_Options o; o.max_tuples = 3000; o.skip_large = true; return o; }
    const char* bound(Tier t) const override
    {
        return t == Tier::quick ? "75 templates of programs with n repeated, nested or chained constructs (declarations, parameters, variables, statements, blocks, loops, branches, operators, calls, conversions, instances, widths, annotations, recursion, iterations, names, literals, comments, lines), right and with a mistake at the end, for every n in 0..20, 26, 31..33, 50, 63..65, 99..101, 127..129, 255..257"
                                : "the same for every n in 0..129, 255..257, 511..513, 1023..1025";
    }
    void enumerate(Tier t, const Emit& emit0) override
    {
        for (int n : sizes(t)) {
            const std::string N = S(n), M = S(n - 1), W = S(n < 1 ? 1 : n > 128 ? 128 : n);
            bool go = true;
            auto emit = [&](const std::string& s) { go = go && emit0(s); };
            // with a mistake afterwards, too: its position and kind must be right
            auto both = [&](const std::string& s) { emit(s); emit(s + " const wrong = undefined_;"); emit(s + "\nconst wrong ="); };
            // declarations
            both("const c = 3; " + each(n, [](int i) { return "const c" + S(i) + " = " + (i ? "c" + S(i - 1) : "c") + " + 1;"; }));
            both(each(n, [](int i) { return "const c" + S(i) + " = " + S(i) + ";"; }, "\n") + "const x = " + (n ? "c" + M : std::string("5")) + ";");
            both(std::string("const x = ") + (n ? "c0" : "7") + std::string(";") + each(n, [&](int i) { return "const c" + S(i) + " = " + (i + 1 < n ? "c" + S(i + 1) : "9") + ";"; }));
            both(each(n, [](int i) { return "const c" + S(i) + " = " + S(i) + ";"; }) + " const c" + S(n / 2) + " = 1;");
            both("function f() -> Int { return 4; } " + each(n, [](int i) { return "function f" + S(i) + "() -> Int { return " + (i ? "f" + S(i - 1) : "f") + "() + 1; }"; }) + " const t = " + (n ? "f" + M : "f") + "();");
            both(each(n, [&](int i) { return "function f" + S(i) + "(x: Int) -> Int { return " + (i + 1 < n ? "f" + S(i + 1) + "(x + 1)" : "x") + "; }"; }) + (n ? " const t = f0(1);" : ""));
            emit(each(n, [&](int i) { return "function f" + S(i) + "(x: Int) -> Int { if x < 1 { return 0; } return f" + S((i + 1) % n) + "(x - 1) + 1; }"; }) + (n ? " function g() -> Int { return f0(" + S(n + 3) + "); }" : ""));
            // parameters, arguments
            const auto params = each(n, [](int i) { return "p" + S(i) + ": Int"; }, ", ");
            const auto sum = [&](const std::string& p) { return each(n, [&](int i) { return "s = s * 3; s = s % 1009; s = s + " + p + S(i) + ";"; }); };
            const auto args = each(n, [](int i) { return S(i * 7 + 2); }, ", ");
            both("function f(" + params + ") -> Int { let s = 1; " + sum("p") + " return s; } const t = f(" + args + "); function g(x: Int) -> Int { return f(" + each(n, [](int i) { return i % 3 ? S(i) : std::string("x"); }, ", ") + "); }");
            emit("function f(" + params + ") -> Int { return 1; } const t = f(" + args + (n ? ", 1" : "1") + ");");
            if (n) emit("function f(" + params + ") -> Int { return 1; } const t = f(" + each(n - 1, [](int i) { return S(i); }, ", ") + ");");
            if (n) emit("function f(" + params + ") -> Int { return 1; } const t = f(" + each(n, [&](int i) { return i + 1 == n ? std::string("true") : S(i); }, ", ") + ");");
            if (n > 1) emit("function f(" + params + ", p" + S(n / 2) + ": Int) -> Int { return 1; }");
            if (n) emit("function f(" + each(n, [](int i) { return "p" + S(i) + ": Uint(" + S(1 + i % 128) + ")"; }, ", ") + ") -> Uint(" + S(1 + (n - 1) % 128) + ") { return p" + M + "; } const t = f(" + each(n, [](int) { return std::string("1"); }, ", ") + ");");
            // variables
            both("function f(x: Int) -> Int { let v = x; " + each(n, [](int i) { return "let v" + S(i) + " = " + (i ? "v" + S(i - 1) : "v") + " + 1;"; }) + " return " + (n ? "v" + M : "v") + "; } const t = f(3);");
            both("function f(x: Int) -> Int { let s = x; " + each(n, [](int i) { return "let v" + S(i) + ": Int;"; }) + each(n, [&](int i) { return "v" + S(n - 1 - i) + " = " + S(i) + ";"; }) + sum("v") + " return s; } const t = f(3);");
            if (n) both("function f(x: Int) -> Int { " + each(n, [](int i) { return "let v" + S(i) + ": Int;"; }) + each(n - 1, [&](int i) { return "v" + S(i) + " = " + S(i) + ";"; }) + " return v" + M + "; } function g() -> Int { return 1; }");
            emit("function f(x: Int) -> Int { " + each(n, [](int i) { return "const k" + S(i) + " = " + (i ? "k" + S(i - 1) : "1") + " + 1;"; }) + " return x" + (n ? " + k" + M : "") + "; }");
            // statements
            both("function f(x: Int) -> Int { let s = x; " + rep("s = s + 1; ", n) + "return s; } const t = f(2);");
            both("function v() -> Void { } function f(x: Int) -> Int { " + rep("v(); ", n) + "return x; } const t = f(2);");
            both("function f(x: Int) -> Int { " + rep("{ ", n) + "let y = x;" + rep(" }", n) + " return x; } const t = f(2);");
            both("function f(x: Int) -> Int { " + rep("if x > 0 { ", n) + "return 5;" + rep(" }", n) + " return x; } const t = f(2);");
            both("function f(x: Int) -> Int { " + rep("{ let y = x; } ", n) + " return x; } const t = f(2);");
            both("function f(x: Int) -> Int { let s = 0; " + each(n, [](int i) { return "if x == " + S(i) + " { s = " + S(i + 100) + "; } else"; }) + " { s = 1; } return s; } const t = f(" + M + "); const u = f(" + N + "); const w = f(" + S(n / 2) + ");");
            both("function f(x: Int) -> Int { let s = 0; " + each(n, [](int i) { return "while s < " + S(i + 1) + " {"; }) + " s = s + 1; " + rep("if x > 3 { break; } } ", n) + "return s; } const t = f(2); const u = f(5);");
            both("function f(x: Int) -> Int { let i = 0; let s = 0; while i < " + N + " { i = i + 1; if i == x { continue; } s = s + i; let k = s; } return s; } const t = f(2);");
            both("function f(x: Int) -> Int { let s = 0; while s < 3 { s = s + 1; " + rep("if x == 0 { continue; } if x == 1 { break; } ", n) + " } return s; } const t = f(2); const u = f(0);");
            emit("function f() -> Void { " + rep("while true { ", n) + rep("break; } ", n) + " return; " + rep("return; ", n) + "}");
            emit("function f(x: Int) -> Int { " + rep("if x == 7 { return 1; } ", n) + "return 2; } const t = f(7);");
            both(each(n, [](int i) { return "static_assert(" + S(i) + " < " + S(i + 1) + ");"; }));
            emit(rep("static_assert(true);\n", n) + "static_assert(" + N + " == 1000);");
            // expressions
            both("const t = " + rep("(", n) + "1" + rep(" + 1)", n) + "; function f(x: Int) -> Int { return " + rep("(", n) + "x" + rep(" - 1)", n) + "; }");
            both("const t = " + rep("(2 - ", n) + "1" + rep(")", n) + "; function f(x: Int) -> Int { return " + rep("(1 - ", n) + "x" + rep(")", n) + "; }");
            both("const t = " + rep("-(", n) + "1" + rep(")", n) + "; function f(x: Uint(5), b: Bool) -> Bool { return (" + rep("~(", n) + "x" + rep(")", n) + " == x) == " + rep("!(", n) + "b" + rep(")", n) + "; }");
            both("const t = " + rep("(", n) + "1 as Uint(8)" + each(n, [](int i) { return ") as Uint(" + S(8 + i % 100) + ")"; }, "") + ";");
            both("function f(x: Int) -> Int { return " + each(n, [](int i) { return S(i + 10) + " if x == " + S(i) + " else "; }, "") + "3; } const t = f(" + M + "); const u = f(" + N + ");");
            both("function f(x: Int) -> Int { return x + 1; } const t = " + rep("f(", n) + "1" + rep(")", n) + "; function g(x: Int) -> Int { return " + rep("f(", n) + "x" + rep(")", n) + "; }");
            both("function f(x: Int, y: Int) -> Int { return x - y; } const t = " + rep("f(1, ", n) + "1" + rep(")", n) + "; function g(x: Int) -> Int { return " + rep("f(", n) + "x" + rep(", 2)", n) + "; }");
            both("function f(a: Bool) -> Bool { return " + rep("(a && ", n) + "true" + rep(")", n) + "; } function g(a: Bool) -> Bool { return " + rep("(", n) + "a" + rep(" || false)", n) + "; } const t = f(true); const u = g(false);");
            both("function f(a: Bool) -> Bool { return " + each(n, [](int) { return std::string("a"); }, " && ") + (n ? "" : "a") + "; } const t = f(true);");
            both("function f(a: Int) -> Int { return " + each(n, [](int) { return std::string("a"); }, " + ") + (n ? "" : "a") + "; } const t = f(2);");
            // recursion and iteration
            both("function f(x: Int) -> Int { if x < 1 { return 0; } let y = f(x - 1); return y + x; } function g() -> Int { return f(" + N + "); }");
            both("function f(x: Int, y: Int) -> Int { let a = x; let b = y; if x < 1 { return b; } b = f(x - 1, y + a); return b - a; } function g(k: Int) -> Int { return f(" + N + ", k); }");
            both("function f(x: Int) -> Int { let i = 0; let s = x; while i < " + N + " { s = s * 5; s = s % 1013; i = i + 1; } return s; } const t = f(3);");
            // generic functions
            const auto instances = [&](int k, const std::string& call) { return each(k, [&](int i) { return "const g" + S(i) + " = " + call + "(1 as Uint(" + S(i + 1) + "));"; }); };
            const int nw = std::min(n, 128);
            both("function f(x: Uint(w)) -> Int { return w * 2; } " + instances(nw, "f"));
            both("function f(x: Uint(w)) -> Uint(w) { let y = x; y = y + 1; return y; } " + each(nw, [](int i) { return "function h" + S(i) + "(x: Uint(" + S(128 - i) + ")) -> Uint(" + S(128 - i) + ") { return f(x); }"; }));
            emit("function f(x: Uint(w)) -> Int requires w < " + W + " { return w; } const t = f(1 as Uint(" + W + "));");
            emit("function f(x: Uint(w)) -> Int requires w <= " + W + " { return w; } const t = f(1 as Uint(" + W + "));");
            both(each(n, [&](int i) { return "function f" + S(i) + "(x: Uint(w)) -> Int { return " + (i + 1 < n ? "f" + S(i + 1) + "(x) + 1" : "w") + "; }"; }) + (n ? " const t = f0(1 as Uint(" + W + ")); const u = f0(1 as Uint(9));" : ""));
            if (n) both("function f(" + each(n, [](int i) { return "x" + S(i) + ": Uint(w" + S(i) + ")"; }, ", ") + ") -> Int { let s = 0; " + sum("w") + " return s; } const t = f(" + each(n, [](int i) { return "1 as Uint(" + S(1 + i % 128) + ")"; }, ", ") + "); const u = f(" + each(n, [](int i) { return "1 as Uint(" + S(128 - i % 128) + ")"; }, ", ") + ");");
            if (n) emit("function f(x: Uint(w)) -> Int { const k = w; " + each(n, [](int i) { return "let y" + S(i) + ": Uint(w) = x;"; }) + " return k" + "; } const t = f(1 as Uint(4)); const u = f(1 as Uint(5));");
            // widths
            emit("function f(x: Uint(" + W + "), y: Uint(" + W + ")) -> Uint(" + W + ") { let s = x + y; s = s ^ y; s = ~s; s = s | x; s = -s; s = s & y; if s > x { return s; } return x; } const t = f(1, 0); const u = ~f(0, 1); const v = f(u, t); const m: Uint(" + W + ") = ~(0 as Uint(" + W + ")); const z = m + 1;");
            emit("function f(x: Uint(" + W + "), y: Uint(" + W + ")) -> Uint(" + W + ") { let s = x * y; if y != 0 { s = s / y; } if x != 0 { s = s % x; } return s; } const t = f(1, 1);");
            emit("function f(x: Uint(" + W + "), y: Int) -> Uint(" + W + ") { if y < 0 { return x; } return x << y; } const m = ~(0 as Uint(" + W + ")); const t = m >> (" + W + " - 1); const u = m << (" + W + " - 1); const v = m >> " + W + ";");
            emit("function f(x: Uint(" + W + ")) -> Uint(" + W + ") { return x >> (" + W + " - 1); } const m = ~(0 as Uint(" + W + ")); const t = m >> (" + W + " - 1); const u = m << (" + W + " - 1); const v = (m >> 1) == (m / 2) if " + W + " > 1 else true; const w = (m as Uint(64)) as Uint(" + W + "); const q = m as Int;");
            emit("const t: Uint(" + N + ") = 1; const b = t == 1; const u = t & 1; const x: Uint(" + W + ") = " + (nw < 128 && nw ? "(1 << 0) as Uint(" + W + ")" : "0") + ";");
            emit("const t = 1 as Uint(" + N + "); function f(x: Uint(" + N + ")) -> Uint(" + W + ") { return x; }");
            emit("const t: Uint(" + W + ") = 0x" + rep("f", n) + ";");
            emit("const t: Uint(" + W + ") = 0b1" + rep("0", n) + ";");
            emit("const t: Uint(" + W + ") = 0b" + rep("1", n) + ";");
            // annotations
            both(rep("@inline ", n) + "function f() -> Void { }");
            both(each(n, [](int i) { return "@inline function f" + S(i) + "() -> Void { }"; }));
            emit("@c_equivalent(" + each(n, [](int i) { return "\"f" + S(i) + "\""; }, ", ") + ") function f() -> Void { }");
            emit("@c_equivalent(\"" + rep("a", n) + "\") function f() -> Void { }");
            emit("@c_equivalent(\"" + rep("\\\"", n) + "\") function f() -> Void { }");
            emit("@instantiate(" + N + ") function f(x: Uint(w)) -> Int { return w; }");
            emit("@instantiate(" + each(n, [](int i) { return S(i + 1); }, ", ") + ") function f(x: Uint(w)) -> Int { return w; }");
            emit(each(n, [](int i) { return "@instantiate(" + S(i + 1) + ")"; }) + " function f(x: Uint(w)) -> Int { return w; }");
            emit("function f() -> Void { @unroll(" + N + ") while true { } @unroll(limit = " + N + ") while true { } }");
            // text
            const std::string id = rep("a", n);
            both("const " + id + "b = 1; const " + id + "c = 2; function f(" + id + "d: Int) -> Int { let " + id + "e = " + id + "d; return " + id + "e - " + id + "c; } const x = f(" + id + "b);");
            emit("const " + id + "b = 1; const x = " + id + "c;");
            emit("const " + id + "b = 1; const " + id + "b = 2;");
            both("const x = " + rep(" ", n) + "1" + rep("\n", n) + "; " + rep("\t", n));
            both(rep("// c\n", n) + "const x = 1;" + rep("/* x */", n));
            both("// " + rep("c", n) + "\nconst x = /*" + rep("*", n) + "*/ 1; /*" + rep("/", n) + "*/ //" + rep("\\", n) + "\n");
            both("const x = " + (n ? rep("0", n) : "1") + "; const y = 0x" + rep("0", n) + "1; const z = 0b" + rep("0", n) + "1;");
            emit("const x = 1" + rep("0", n) + ";");
            emit("const x = 0x1" + rep("0", n) + ";");
            emit("const x = 0" + rep("7", n) + ";");
            if (!go) return;
        }
    }
};
Register<Scale> r0;

// One program after another in the same process: nothing may remain of the first.
struct Sequences : Program_Suite {
    const char* name() const override { return "sequences"; }
    const char* bound(Tier t) const override
    {
        return t == Tier::quick ? "46 correct and wrong programs (wrong in every stage), one after another in one process, in all pairs, by each of 8 workers"
                                : "the same in all triples of every third program and all pairs";
    }
    void enumerate(Tier t, const Emit& emit) override
    {
        const Strings programs {
            "", "const r = 1;", "const r = 1 +;", "const r = $;", "const r = \"s\";", "const r = 0b12;", "/* a", "const r = y;", "const r = 1; const r = 2;", "const r: Uint(0) = 1;", "const r: Uint(8) = 256;",
            "const r = 1 / 0;", "const r = true + 1;", "const a = 170141183460469231731687303715884105727 + 1;", "static_assert(1 == 2);", "static_assert(1 + 1);", "function f() -> Int { }", "const r = f(); function f() -> Int { }",
            "function f(x: Int) -> Int { return x + 1; } const r = f(4);", "function f(x: Int) -> Int { return x + 2; } const r = f(5);", "function f(x: Bool) -> Bool { return !x; } const r = f(true);", "const f = 3; const r = f;", "function r() -> Int { return 9; } const f = x();",
            "function f(x: Uint(w)) -> Int { return w; } const r = f(1 as Uint(8));", "function f(x: Uint(w)) -> Int { return w + 1; } const r = f(1 as Uint(8)); const y = f(1 as Uint(9));", "function f(x: Uint(w)) -> Uint(w) { return ~x; } const r = f(1 as Uint(8));", "function f(x: Uint(w)) -> Int requires w < 8 { return w; } const r = f(1 as Uint(8));", "function f(x: Uint(w)) -> Int { static_assert(w != 8); return w; } const r = f(1 as Uint(8));",
            "function f(a: Uint(v), b: Uint(w)) -> Int { return v * 1000 + w; } const r = f(1 as Uint(8), 1 as Uint(16));", "function f(x: Int) -> Int { let y: Int; if x == 1 { y = 2; } return y; } const r = f(1);", "function f(x: Int) -> Int { let y: Int; if x == 1 { y = 2; } return y; } const r = f(2);",
            "function f(x: Int) -> Int { if x < 1 { return 0; } return f(x - 1) + 2; } const r = f(7);", "function f(x: Int) -> Int { let i = 0; let s = 0; while i < x { i = i + 1; if i == 3 { continue; } if i == 6 { break; } s = s * 10 + i; } return s; } const r = f(9);", "function f(x: Int) -> Int { return g(x) + 1; } function g(x: Int) -> Int { return x * 2; }",
            "function f(x: Int) -> Int { assert(x > 3); return x; } const r = f(3);", "function f(x: Int) -> Int { assert(x > 3); return x; } const r = f(4);", "function f() -> Void { } function g() -> Void { f(); return; }", "@inline function f() -> Void { }", "@inline @inline function f() -> Void { }", "@unknown function f() -> Void { }", "function f() -> Void { @unroll(3) while true { } }", "function f() -> Void { @unroll(-1) while true { } }",
            "function f(x: Uint(128), y: Uint(128)) -> Bool { return x < y; } const r: Uint(128) = 340282366920938463463374607431768211455;", "function f() -> Int { return 1; return 2; } const r = f(1);", "function f(x: Int) -> Int { return true; }", "const f = 1; function g() -> Int { { let f = 1; } return f(1); }" };
        auto each_worker = [&](const std::string& p) { // the same sequence for all workers
            for (int i = 0; i < 8; ++i) if (!emit(p)) return false;
            return true;
        };
        for (auto& a : programs)
            for (auto& b : programs) if (!each_worker(a) || !each_worker(b)) return;
        if (t == Tier::thorough)
            for (size_t i = 0; i < programs.size(); i += 3)
                for (size_t j = 0; j < programs.size(); j += 3)
                    for (size_t k = 0; k < programs.size(); k += 3) if (!each_worker(programs[i]) || !each_worker(programs[j]) || !each_worker(programs[k])) return;
    }
};
Register<Sequences> r1;

} // namespace
