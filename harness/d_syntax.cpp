// C03: the parser accepts exactly the grammar, builds the right tree, and points at the right token.
#include "bms_check.hpp"
using namespace verif;

namespace {

struct Syntax_Suite : Suite {
    void check(std::string_view c, Ctx& ctx) override { check_syntax(c, ctx); }
};

using Strings = std::vector<std::string>;
using Emit = std::function<bool(std::string_view)>;

bool wrapped(const std::string& before, const Strings& alphabet, size_t max, const std::string& after, const Emit& emit)
{
    for (size_t n = 0; n <= max; ++n)
        if (!all_sequences(alphabet, n, " ", [&](std::string_view s) { return emit(before + std::string(s) + after); })) return false;
    return true;
}

const Strings all_tokens {
    "&", "->", "=", "@", "1", "|", "^", "~", "{ ", "}", "[", "]", ":", ",", ".", "/", "==", ">", ">=", "0x1", "x", "as",
    "break", "Bool", "const", "continue", "else", "export", "false", "for", "function", "if", "import", "Int", "let",
    "requires", "return", "static_assert", "true", "Uint", "Void", "while", "<", "<=", "&&", "!", "||", "-", "*", "!=",
    "(", ")", "+", "%", ";", "<<", ">>", "\"s\"", "//c\n", "/*c*/", "0b1", "01"
};
const Strings expr_tokens { "x", "1", "(", ")", "-", "*", "&", "==", "if", "else", "as", "Int", "Uint", ",", "!" , "@" };
const Strings small_expr { "x", "-", "<", "&&", "if", "else", "(", ")", "as Int" };
const Strings stmt_tokens { "x", "=", "1", ";", "{", "}", "(", ")", "let", "const", "if", "else", "while", "return", "break", "static_assert", "@a", ":", "Int" };
const Strings header_tokens { "x", ":", "Int", "Uint", "(", ")", ",", "->", "requires", "{", "}" };
const Strings annotation_tokens { "@", "a", "(", ")", ",", "=", "1", "true", "\"s\"", "-" };

struct Tokens : Syntax_Suite {
    const char* name() const override { return "syntax_tokens"; }
    const char* bound(Tier t) const override
    {
        return t == Tier::quick
            ? "all token sequences in 19 contexts: <=3 of all 60 tokens (program, after a declaration, statement, after an expression); <=5 of 16 "
              "expression tokens, <=7 of 9, <=5 of 19 statement tokens, <=6 of 11 header tokens, <=6 of 10 annotation tokens"
            : "the same with every length increased by one";
    }
    void enumerate(Tier t, const Emit& emit) override
    {
        const size_t d = t == Tier::quick ? 1 : 2;
        (void)(wrapped("", all_tokens, 2 + d, "", emit)
            && wrapped("const x = 1; ", all_tokens, 2 + d, "", emit)
            && wrapped("function f() -> Int { ", all_tokens, 2 + d, "}", emit)
            && wrapped("const x = 1 ", all_tokens, 2 + d, ";", emit)
            && wrapped("const x = ", expr_tokens, 4 + d, ";", emit)
            && wrapped("const x = x ", small_expr, 6 + d, ";", emit)
            && wrapped("const x: Uint(", small_expr, 4 + d, ") = 1;", emit)
            && wrapped("function f() -> Int { ", stmt_tokens, 4 + d, "}", emit)
            && wrapped("function f() -> Int { if x { ", stmt_tokens, 3 + d, "} }", emit)
            && wrapped("function f() -> Int { while x {} else", stmt_tokens, 2 + d, "}", emit)
            && wrapped("function f() -> Int { if x {} else", stmt_tokens, 3 + d, "}", emit)
            && wrapped("function f() -> Int { @a ", stmt_tokens, 3 + d, "}", emit)
            && wrapped("function f ", header_tokens, 5 + d, "{}", emit)
            && wrapped("function f(x: Int) -> Int ", header_tokens, 4 + d, "{}", emit)
            && wrapped("function f(x: Int, ", header_tokens, 4 + d, ") -> Int {}", emit)
            && wrapped("", annotation_tokens, 5 + d, " const x = 1;", emit)
            && wrapped("@a(", annotation_tokens, 4 + d, ") function f() -> Int {}", emit)
            && wrapped("const y = f(x) ", annotation_tokens, 4 + d, ";", emit)
            && wrapped("function f() -> Int { f(", expr_tokens, 3 + d, "); }", emit));
    }
};
Register<Tokens> r0;

const Strings seeds {
    "const a : Uint ( 8 ) = 1 + 2 ; function f ( x : Int , y : Uint ( N ) ) -> Bool requires N == 8 { return x < y ; }",
    "@ inline ( true , n = \"s\" ) function f ( ) -> Void { @ unroll ( 4 ) while x == 1 { break ; continue ; } }",
    "function g ( ) -> Int { if a { return 1 ; } else if ! b { x = 2 if c else 3 ; } else { f ( 1 , x ) ; } return - a as Int ; }",
    "static_assert ( f ( 1 , ( 2 ) ) == 3 << 4 ) ; function h ( ) -> Void { let x : Int ; let y = x * 2 > z ; { const c = 1 ; static_assert ( true ) ; } return ; }",
    "const a = f ( 1 ) @ inline ( true ) + x - y == z * w if a & b else ~ c if d else e ; /* c */ const b = 2 ; // d\n",
};

struct Edits : Syntax_Suite {
    const char* name() const override { return "syntax_edits"; }
    const char* bound(Tier t) const override
    {
        return t == Tier::quick ? "5 seed programs covering the grammar; every deletion, duplication, swap, and every insertion and replacement by each of 60 tokens, at every token"
                                : "the same, and all pairs of a deletion with any other single-token edit";
    }
    static Strings split(const std::string& s)
    {
        Strings r;
        size_t i = 0;
        while (i < s.size()) {
            if (s[i] == ' ') { ++i; continue; }
            size_t e = s.compare(i, 2, "/*") == 0 ? s.find("*/", i) + 2 : s.compare(i, 2, "//") == 0 ? s.find('\n', i) + 1 : std::min(s.find(' ', i), s.size());
            r.push_back(s.substr(i, e - i));
            i = e;
        }
        return r;
    }
    static std::string join(const Strings& v)
    {
        std::string r;
        for (auto& x : v) r += x + " ";
        return r;
    }
    static bool edits(const Strings& t, const Emit& emit)
    {
        for (size_t i = 0; i <= t.size(); ++i) {
            for (auto& a : all_tokens) {
                Strings u = t;
                u.insert(u.begin() + long(i), a);
                if (!emit(join(u))) return false;
                if (i == t.size()) continue;
                u = t;
                u[i] = a;
                if (!emit(join(u))) return false;
            }
            if (i == t.size()) break;
            Strings u = t;
            u.erase(u.begin() + long(i));
            if (!emit(join(u))) return false;
            u = t;
            u.insert(u.begin() + long(i), u[i]);
            if (!emit(join(u))) return false;
            if (i + 1 < t.size()) {
                u = t;
                std::swap(u[i], u[i + 1]);
                if (!emit(join(u))) return false;
            }
            u.assign(t.begin(), t.begin() + long(i)); // truncation
            if (!emit(join(u))) return false;
        }
        return true;
    }
    void enumerate(Tier t, const Emit& emit) override
    {
        for (auto& s : seeds) {
            Strings w = split(s);
            if (!emit(s) || !edits(w, emit)) return;
            if (t == Tier::quick) continue;
            for (size_t i = 0; i < w.size(); ++i) {
                Strings u = w;
                u.erase(u.begin() + long(i));
                if (!edits(u, emit)) return;
            }
        }
    }
};
Register<Edits> r1;

// Every expression of the grammar up to a nesting depth, in every position where one can occur.
struct Trees : Syntax_Suite {
    const char* name() const override { return "syntax_trees"; }
    const char* bound(Tier t) const override
    {
        return t == Tier::quick ? "all operator chains of 4 operands over all 18 binary operators and 4 prefixes (2 per position beyond the third), all parenthesisations of depth 2"
                                : "the same with 3 prefixes per position and 5 operands over one operator per class";
    }
    void enumerate(Tier t, const Emit& emit) override
    {
        static const Strings ops { "+", "-", "*", "/", "%", "==", "!=", "<", ">", "<=", ">=", "&&", "||", "&", "|", "^", "<<", ">>", "if", "else", "as Int", "as Uint(3)" };
        static const Strings cls { "+", "/", "==", "<=", "&&", "^", "<<", "if", "else", "as Int" };
        auto prim = [](size_t i, size_t p) { return std::string(p == 1 ? "-" : p == 2 ? "!" : p == 3 ? "~" : p == 4 ? "+" : "") + char('a' + i); };
        // chains
        for (auto& o1 : ops)
            for (size_t p = 0; p < 25; ++p)
                if (!emit("const x = " + prim(0, p % 5) + " " + o1 + " " + prim(1, p / 5) + ";")) return;
        for (auto& o1 : ops)
            for (auto& o2 : ops) {
                for (size_t p = 0; p < 27; ++p)
                    if (!emit("const x = " + prim(0, p % 3) + o1 + " " + prim(1, p / 3 % 3) + " " + o2 + " " + prim(2, p / 9) + ";")) return;
                for (auto& o3 : ops)
                    for (size_t p = 0; p < (t == Tier::quick ? 2u : 16u); ++p)
                        if (!emit("const x = " + prim(0, p & 1) + " " + o1 + " " + prim(1, p >> 1 & 1) + " " + o2 + " " + prim(2, p >> 2 & 1) + " " + o3 + " " + prim(3, p >> 3 & 1) + ";")) return;
            }
        const Strings& deep = cls;
        for (auto& o1 : deep) for (auto& o2 : deep) for (auto& o3 : deep) for (auto& o4 : deep) {
            if (!emit("const x = a " + o1 + " b " + o2 + " c " + o3 + " d " + o4 + " e;")) return;
            if (t == Tier::quick) continue;
            for (auto& o5 : deep)
                if (!emit("const x = a " + o1 + " b " + o2 + " c " + o3 + " d " + o4 + " e " + o5 + " g;")) return;
        }
        // parenthesised operands, calls, literals
        static const Strings atoms { "a", "(a)", "(a + b)", "(a == b)", "(a as Int)", "(a if b else c)", "f()", "f(a)", "f(a + b, (c))", "f(a as Int) @i", "f() @i @j(1)", "-a", "~f()", "!(a)", "0x1f", "true", "((a))", "-(a + b)", "f(f(a), 1 if b else 2)" };
        for (auto& a : atoms) for (auto& b : atoms) for (auto& o : ops)
            if (!emit("const x = " + a + " " + o + " " + b + ";")) return;
        for (auto& a : atoms) for (auto& b : atoms) for (auto& c : atoms)
            if (!emit("const x = " + a + " if " + b + " else " + c + ";")) return;
        static const Strings contexts { "const x: Uint(E) = 1;", "static_assert(E);", "function f(x: Uint(E)) -> Int {}", "function f() -> Uint(E) {}", "function f() -> Int requires E {}",
            "function f() -> Int { return E; }", "function f() -> Int { x = E; }", "function f() -> Int { let x = E; }", "function f() -> Int { let x: Uint(E) = E; }", "function f() -> Int { if E {} }",
            "function f() -> Int { if a {} else if E { } else {} }", "function f() -> Int { while E {} }", "function f() -> Int { static_assert(E); }", "function f() -> Int { g(E); }", "function f() -> Int { g(E, E)@a; }", "function f() -> Int { return a as Uint(E); }", "function f() -> Int { { const x = E; } }" };
        for (auto& c : contexts)
            for (auto& a : atoms)
                for (auto& o : ops) {
                    std::string s;
                    for (char ch : c) { if (ch == 'E') s += a + " " + o + " b"; else s += ch; }
                    if (!emit(s)) return;
                    s.clear();
                    for (char ch : c) { if (ch == 'E') s += a; else s += ch; }
                    if (!emit(s)) return;
                }
    }
};
Register<Trees> r2;

// Deep nesting must not blow up.
struct Depth : Syntax_Suite {
    const char* name() const override { return "syntax_depth"; }
    const char* bound(Tier) const override { return "12 nestable constructs nested 1..64 deep"; }
    unsigned hang_seconds() const override { return 10; }
    void enumerate(Tier, const Emit& emit) override
    {
        auto rep = [](const std::string& s, int n) { std::string r; while (n--) r += s; return r; };
        for (int n = 1; n <= 64; ++n)
            for (auto& s : Strings {
                     "const x = " + rep("(", n) + "1" + rep(")", n) + ";", "const x = " + rep("f(", n) + "1" + rep(")", n) + ";",
                     "const x = " + rep("-(", n) + "1" + rep(")", n) + ";", "const x = " + rep("(1 + ", n) + "1" + rep(")", n) + ";",
                     "const x = " + rep("(", n) + "1" + rep(" + 1)", n) + ";", "const x = 1 as " + rep("Uint(1 as ", n) + "Int" + rep(")", n) + ";",
                     "const x = " + rep("1 if 1 else ", n) + "1;", "const x = " + rep("(1 if ", n) + "1" + rep(" else 1)", n) + ";",
                     "function f() -> Int " + rep("{", n) + rep("}", n), "function f() -> Int {" + rep("if 1 {", n) + rep("}", n) + "}",
                     "function f() -> Int {" + rep("while 1 {", n) + rep("}", n) + "}", "function f() -> Int {" + rep("if 1 {} else ", n) + "{}}",
                     "const x = " + rep("(", n) + "1 == 1" + rep(") == 1", n) + ";", "const x = " + rep("((1) as Int) + (", n) + "1" + rep(")", n) + ";" })
                if (!emit(s)) return;
    }
};
Register<Depth> r3;

} // namespace
