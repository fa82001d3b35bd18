// C05, C06, C07: operators, typing, constant folding.
#include "bms_suite.hpp"
using namespace verif;
namespace {

const Strings binops { "+", "-", "*", "/", "%", "==", "!=", "<", ">", "<=", ">=", "&&", "||", "&", "|", "^", "<<", ">>" };
const Strings unops { "+", "-", "!", "~" };

// ---- C05: the value of every operation -------------------------------------------------------

struct Operators : Program_Suite {
    const char* name() const override { return "operators"; }
    Check_Options options() const override { return { .wide = true }; }
    const char* bound(Tier t) const override
    {
        return t == Tier::quick ? "18 binary, 4 unary operators, conversions and if-expressions x all operand types (Bool, Int, Uint of width 1-6,8,31-33,63-65,126-128, and Int mixed with each), run by the VM on all values of widths <=5 and all boundary values of the others"
                                : "the same for every width 1..128";
    }
    void enumerate(Tier t, const Emit& emit) override
    {
        Strings types { "Bool", "Int" };
        for (int w = 1; w <= 128; ++w)
            if (t == Tier::thorough || w <= 6 || w == 8 || (w >= 31 && w <= 33) || (w >= 63 && w <= 65) || w >= 126) types.push_back("Uint(" + std::to_string(w) + ")");
        auto fn = [&](const std::string& params, const std::string& ret, const std::string& e, const std::string& args) {
            return emit("function f(" + params + ") -> " + ret + " { return " + e + "; } const t = 0 if true else 0 if f(" + args + ") == f(" + args + ") else 1;");
        };
        for (auto& ty : types) {
            const std::string one = ty == "Bool" ? "true" : "1";
            for (auto& o : unops) if (!fn("x: " + ty, ty, o + "x", one)) return;
            for (auto& o : binops) {
                const std::string r = ref::is_cmp(o) ? "Bool" : ty;
                if (!fn("x: " + ty + ", y: " + ty, r, "x " + o + " y", one + ", " + one)) return;
                if (ty[0] != 'U') continue;
                if (!fn("x: Int, y: " + ty, r, "x " + o + " y", "1, 1")) return;
                if (!fn("x: " + ty + ", y: Int", r, "x " + o + " y", "1, 1")) return;
            }
            if (!fn("c: Bool, x: " + ty + ", y: " + ty, ty, "x if c else y", "true, " + one + ", " + one)) return;
            if (ty[0] == 'U') {
                if (!fn("x: Int", ty, "x as " + ty, "1")) return;
                if (!fn("x: Int", ty, "x", "1")) return;
                if (!fn("c: Bool, x: Int, y: " + ty, ty, "x if c else y", "true, 1, 1")) return;
                if (!fn("c: Bool, x: " + ty + ", y: Int", ty, "x if c else y", "true, 1, 1")) return;
                if (!fn("x: " + ty, ty, "x as " + ty, "1")) return;
            }
        }
    }
};
Register<Operators> r0;

// The same operations in constant expressions: one program per operand pair.
struct Folding : Program_Suite {
    const char* name() const override { return "operators_constant"; }
    const char* bound(Tier t) const override
    {
        return t == Tier::quick ? "all operators x operand types (Bool, Int, Uint of 1,2,3,8,64,127,128 bits) x boundary values, written as constant expressions"
                                : "the same with 14 widths and the wide value grid";
    }
    static std::string spell(ref::Val v)
    {
        if (v.t.k == ref::K::Bool) return v.v ? "true" : "false";
        std::string d;
        if (v.t.k == ref::K::Int) {
            if (ref::I128(v.v) >= 0) return ref::dec(v.v);
            if (v.v == ref::U128(1) << 127) return "(-" + ref::dec(ref::ones(127)) + " - 1)";
            return "(-" + ref::dec(-v.v) + ")";
        }
        const std::string w = " as Uint(" + std::to_string(v.t.w) + ")";
        if (v.v <= ref::ones(127)) return "(" + ref::dec(v.v) + w + ")";
        return "(~(" + ref::dec(~v.v) + w + "))"; // width 128
    }
    void enumerate(Tier t, const Emit& emit) override
    {
        std::vector<ref::Ty> types { { ref::K::Bool }, { ref::K::Int } };
        for (int w : t == Tier::quick ? std::vector<int> { 1, 2, 3, 8, 64, 127, 128 } : std::vector<int> { 1, 2, 3, 4, 5, 8, 31, 32, 33, 63, 64, 65, 127, 128 }) types.push_back({ ref::K::Uint, w });
        const bool wide = t == Tier::thorough;
        for (auto& a : types)
            for (auto& x : domain(a, wide)) {
                const std::string sx = spell(x);
                for (auto& o : unops) if (!emit("const c = " + o + sx + ";")) return;
                for (auto& b : types) {
                    for (auto& y : domain(b)) {
                        const std::string sy = spell(y);
                        for (auto& o : binops) if (!emit("const c = " + sx + " " + o + " " + sy + ";")) return;
                        if (!emit("const c = " + sx + " if true else " + sy + ";")) return;
                        if (!emit("const c = " + sx + " if false else " + sy + ";")) return;
                    }
                    if (!emit("const c = " + sx + " as " + ref::str(b) + ";")) return;
                    if (!emit("const c: " + ref::str(b) + " = " + sx + ";")) return;
                }
            }
    }
};
Register<Folding> r1;

// One operand known during analysis, the other one not; and both the same unknown.
struct Partial_Folding : Program_Suite {
    const char* name() const override { return "operators_partial"; }
    Check_Options options() const override { return { .wide = true }; }
    const char* bound(Tier t) const override
    {
        return t == Tier::quick ? "all binary operators and if-expressions with a literal of any of 6 types on either side and a parameter of any of these types on the other, or the same parameter on both sides, alone, under another operator and stored in a variable; run on all (boundary) values"
                                : "the same with 14 widths and all boundary literals";
    }
    void enumerate(Tier t, const Emit& emit) override
    {
        std::vector<ref::Ty> types { { ref::K::Bool }, { ref::K::Int } };
        for (int w : t == Tier::quick ? std::vector<int> { 1, 3, 8, 128 } : std::vector<int> { 1, 2, 3, 4, 5, 8, 31, 32, 33, 63, 64, 65, 127, 128 }) types.push_back({ ref::K::Uint, w });
        for (auto& a : types) {
            const std::string ta = ref::str(a);
            const std::string one = a.k == ref::K::Bool ? "true" : "1";
            // the call in code that is never executed has the function compiled
            const std::string call = " const t = 0 if true else 0 if f(" + one + ") == f(" + one + ") else 1;";
            for (auto& o : binops) {
                const bool cmp = ref::is_cmp(o);
                for (auto& b : types) {
                    const std::string r = cmp ? "Bool" : a.k == ref::K::Int ? ref::str(b) : ta;
                    for (auto& v : domain(b, t == Tier::thorough)) {
                        const std::string l = Folding::spell(v);
                        for (auto& e : { l + " " + o + " x", "x " + o + " " + l }) {
                            if (!emit("function f(x: " + ta + ") -> " + r + " { return " + e + "; }" + call)) return;
                            if (!emit("const k = " + l + "; function f(x: " + ta + ") -> " + r + " { let y = " + (e[0] == 'x' ? "x " + o + " k" : "k " + o + " x") + "; return y; }" + call)) return;
                            if (!emit("function f(x: " + ta + ") -> Bool { return (" + e + ") == (" + l + "); }" + call)) return;
                        }
                    }
                }
                if (!emit("function f(x: " + ta + ") -> " + (cmp ? "Bool" : ta) + " { return x " + o + " x; }" + call)) return;
            }
            for (auto& v : domain(a)) {
                const std::string l = Folding::spell(v);
                for (auto& e : { l + " if x == x else x", "x if x == " + l + " else " + l, l + " if c else x", "x if c else " + l, l + " if true else x", "x if false else " + l, "x if true else " + l })
                    if (!emit("function f(x: " + ta + ", c: Bool) -> " + ta + " { return " + e + "; } const t = 0 if true else 0 if f(" + one + ", true) == f(" + one + ", false) else 1;")) return;
            }
        }
    }
};
Register<Partial_Folding> r1p;

// ---- C06: the type system ---------------------------------------------------------------------

const Strings leaf_params { "b", "i", "u", "w" }; // Bool, Int, Uint(2), Uint(3)
const Strings leaves { "b", "i", "u", "w", "v()", "1", "true", "k", "f(1)", "9" };
const std::string typing_prelude = "const k: Uint(3) = 5; function v() -> Void { } function f(x: Uint(2)) -> Bool { return x == 1; } ";

struct Typing : Program_Suite {
    const char* name() const override { return "typing_expressions"; }
    const char* bound(Tier t) const override
    {
        return t == Tier::quick ? "all expressions with <=2 operators from {18 binary, 4 unary, as x5, if-else} over 10 operands of types Bool, Int, Uint(2), Uint(3), Void, known and unknown; each analyzed, folded and run on all arguments"
                                : "the same and all with 3 binary operators over 6 operands";
    }
    bool one(const Emit& emit, const std::string& e)
    {
        return emit(typing_prelude + "function g(b: Bool, i: Int, u: Uint(2), w: Uint(3)) -> Void { let r = " + e + "; } const t = 0 if true else 1 if g(true, 1, 2, 3) == v() else 2;")
            && emit(typing_prelude + "function g(b: Bool, i: Int, u: Uint(2), w: Uint(3)) -> Bool { let r = " + e + "; return r == r; } const t = g(true, 1, 2, 3);");
    }
    void enumerate(Tier t, const Emit& emit) override
    {
        const Strings casts { "Bool", "Int", "Void", "Uint(2)", "Uint(3)" };
        Strings d1;
        for (auto& x : leaves) {
            d1.push_back(x);
            for (auto& o : unops) d1.push_back(o + x);
            for (auto& c : casts) d1.push_back("(" + x + " as " + c + ")");
        }
        Strings bin;
        for (auto& o : binops) for (auto& x : leaves) for (auto& y : leaves) bin.push_back("(" + x + " " + o + " " + y + ")");
        for (auto& e : d1) if (!one(emit, e)) return;
        for (auto& e : bin) if (!one(emit, e)) return;
        for (auto& x : d1) for (auto& c : { "b", "true", "false", "i", "u", "v()" }) for (auto& y : leaves)
            if (!one(emit, x + " if " + c + " else " + y)) return;
        for (auto& e : bin) {
            for (auto& o : unops) if (!one(emit, o + e)) return;
            for (auto& c : casts) if (!one(emit, e + " as " + c)) return;
            if (!one(emit, e + " if b else u") || !one(emit, "1 if " + e + " else w")) return;
        }
        const Strings few { "b", "i", "u", "w", "1", "k" };
        for (auto& o : binops) for (auto& x : few) for (auto& y : few) for (auto& p : t == Tier::quick ? Strings { "+", "/", "==", "<", "&&", "|", "<<" } : binops) for (auto& z : few) {
            if (!one(emit, "(" + x + " " + o + " " + y + ") " + p + " " + z)) return;
            if (!one(emit, z + " " + p + " (" + x + " " + o + " " + y + ")")) return;
        }
        if (t == Tier::quick) return;
        for (auto& o : binops) for (auto& x : few) for (auto& y : few) for (auto& q : { "+", "-", "==", "&&", "|", "<<" }) for (auto& z : few) for (auto& p : { "+", "/", "<", "||", "&", ">>" }) for (auto& a : { "b", "i", "u", "1" })
            if (!one(emit, "(" + x + " " + o + " " + y + ") " + q + " (" + z + " " + p + " " + a + ")")) return;
    }
};
Register<Typing> r2;

struct Statements : Program_Suite {
    const char* name() const override { return "typing_statements"; }
    const char* bound(Tier) const override
    {
        return "every statement and declaration form x 7 types x 24 expressions of all types, known and unknown";
    }
    void enumerate(Tier, const Emit& emit) override
    {
        const Strings types { "Void", "Bool", "Int", "Uint(1)", "Uint(2)", "Uint(3)", "Uint(128)" };
        const Strings exprs { "b", "i", "u", "w", "v()", "1", "0", "true", "false", "k", "3", "4", "8", "-1", "f(1)", "f(i)", "f(4)", "(1 / 0)", "(u + 1)", "(i + 1)", "(b && true)", "(4 if b else 1)", "(1 if true else 9)", "f(w)", "0x7fffffffffffffffffffffffffffffff", "(0x7fffffffffffffffffffffffffffffff + 1)" };
        const Strings forms { "let r: $T = $E; return true;", "let r: $T; r = $E; return r == r;", "let r: $T = $E; return r == r;", "const r: $T = $E; return true;", "if $E { return true; }", "if b { } else if $E { return true; } return false;",
            "while $E { return true; } return false;", "static_assert($E);", "return h($E) == h($E);", "h($E);", "assert($E);", "return assert($E) == v();", "return $E;", "let r = $E; r = i; return true;", "let r = $E; r = 3; return true;", "let r = i; r = $E; return r == $E;", "return ($E as $T) == ($E as $T);", "$E; return true;" };
        for (auto& ty : types)
            for (auto& e : exprs) {
                for (auto& f : forms) {
                    std::string body = fill(f, { { 'T', ty }, { 'E', e } });
                    if (!emit(typing_prelude + "function h(x: " + ty + ") -> " + ty + " { return x; } function g(b: Bool, i: Int, u: Uint(2), w: Uint(3)) -> Bool { " + body + " } const t = 0 if true else 1 if g(true, 1, 2, 3) else 2;")) return;
                }
                if (!emit(typing_prelude + "function g(b: Bool, i: Int, u: Uint(2), w: Uint(3)) -> " + ty + " { return " + e + "; } const t = 0 if true else 1 if g(true, 1, 2, 3) == g(true, 1, 2, 3) else 2;")) return;
                if (!emit(typing_prelude + "function g(b: Bool, i: Int, u: Uint(2), w: Uint(3)) -> " + ty + " { return " + e + "; } const t = g(true, 1, 2, 3);")) return;
                if (!emit(typing_prelude + "const t: " + ty + " = " + e + ";")) return;
                if (!emit(typing_prelude + "const t = h(" + e + "); function h(x: " + ty + ") -> " + ty + " { return x; }")) return;
                if (!emit(typing_prelude + "function h(x: " + ty + ") -> " + ty + " requires " + e + " { return x; }")) return;
                if (!emit(typing_prelude + "function h(x: Uint(" + e + ")) -> " + ty + " { return x; }")) return;
                if (!emit(typing_prelude + "function h(x: Int) -> Uint(" + e + ") { return x; }")) return;
                if (!emit(typing_prelude + "static_assert(" + e + ");")) return;
            }
    }
};
Register<Statements> r3;

}
