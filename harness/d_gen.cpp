// C16: regenerating BMS source from an analyzed program.
#include "bms_suite.hpp"
#include "bmd/codegen/code_language.hpp"
#include "bmd/codegen/code_string.hpp"
#include "bmd/codegen/codegen.hpp"
using namespace verif;
namespace {

using bm::bmd::Code_Options;
using bm::bmd::Brace_Style;
using bm::bmd::Code_Span_Type;
using ref::N;
using ref::P;

struct Named_Options { const char* name; Code_Options o; };
const std::vector<Named_Options>& all_options()
{
    static const std::vector<Named_Options> r = [] {
        auto style = [](Brace_Style s) { Code_Options o; o.brace_style = s; o.break_after_function = bm::bmd::is_break_after_function(s); o.break_after_if = bm::bmd::is_break_after_if(s); return o; };
        std::vector<Named_Options> v;
        v.push_back({ "default", {} });
        Code_Options p; p.always_parenthesize_subexpressions = true;
        v.push_back({ "parenthesize", p });
        v.push_back({ "allman", style(Brace_Style::allman) });
        auto s = style(Brace_Style::stroustrup); s.indent_size = 2; s.always_parenthesize_subexpressions = true;
        v.push_back({ "stroustrup, 2", s });
        Code_Options t; t.indent_char = '\t'; t.indent_size = 1;
        v.push_back({ "tabs", t });
        auto z = style(Brace_Style::allman); z.indent_size = 0; z.break_after_function = false;
        v.push_back({ "no indentation", z });
        Code_Options c; c.c_23 = true; c.c_prefer_bitint = true; c.break_after_function = true; c.indent_size = 3;
        v.push_back({ "c23, break after function, 3", c });
        return v;
    }();
    return r;
}

void strip_annotations(const P& p)
{
    if (!p) return;
    for (auto& c : p->c) {
        if (c && c->n == N::Annotations) c = nullptr;
        strip_annotations(c);
    }
}

// The number of pairs of parentheses around operands: all of them, or those the grammar requires
// (a conditional that is the last operand of another may have them, for readability).
int level_of(const ref::Node& n)
{ // 0 primary/call, 1 prefix, 2 arithmetic, 3 comparison, 4 other binary, 5 conditional and conversion
    switch (n.n) {
    case N::Prefix: return 1;
    case N::Binary: return n.text == "+" || n.text == "-" || n.text == "*" || n.text == "/" || n.text == "%" ? 2
            : n.text == "==" || n.text == "!=" || n.text == "<" || n.text == ">" || n.text == "<=" || n.text == ">=" ? 3 : 4;
    case N::Conversion: case N::If_Expr: return 5;
    default: return 0;
    }
}
void count_parentheses(const P& p, bool always, size_t& n, size_t& optional)
{
    if (!p) return;
    auto operand = [&](const P& c, int max) { n += always || level_of(*c) > max; };
    switch (p->n) {
    case N::Prefix: operand(p->c[0], 0); break;
    case N::Binary: for (auto& c : p->c) operand(c, level_of(*p) == 3 ? 2 : 1); break;
    case N::Conversion: operand(p->c[0], 1); break;
    case N::If_Expr: // binary "if" binary "else" conditional
        operand(p->c[0], 4);
        operand(p->c[1], 4);
        if (!always && p->c[2]->n == N::If_Expr) ++optional;
        n += always || p->c[2]->n == N::Conversion;
        break;
    case N::Call: case N::Function: case N::Static_Assert: ++n; break;
    case N::Type: n += p->text == "Uint"; break;
    default: break;
    }
    for (auto& c : p->c) count_parentheses(c, always, n, optional);
}

bool type_fits(ref::TT t, std::string_view text, Code_Span_Type s)
{
    using enum ref::TT;
    using C = Code_Span_Type;
    switch (t) {
    case identifier: return s == C::identifier;
    case left_parenthesis: case right_parenthesis: case left_brace: case right_brace: return s == C::bracket;
    case binary_literal: case octal_literal: case decimal_literal: case hexadecimal_literal: return s == C::number;
    case keyword_true: case keyword_false: return s == C::boolean_literal;
    case keyword_int: case keyword_uint: case keyword_bool: case keyword_void: return s == C::keyword || s == C::type_name;
    case semicolon: case comma: case colon: return s == C::punctuation;
    case right_arrow: return s == C::punctuation || s == C::operation;
    default:
        if (text[0] >= 'a' && text[0] <= 'z') return s == C::keyword;
        return s == C::operation;
    }
}

// Layout of one generated text, token by token.
void check_layout(std::string_view text, const std::vector<ref::Ref_Token>& tok, const Code_Options& o, const std::function<void(std::string)>& fail)
{
    using enum ref::TT;
    size_t depth = 0, begin = 0;
    if (text.empty() || text.back() != '\n') { fail("does not end with a line break"); return; }
    enum Brace { function_brace, if_brace, plain_brace };
    Brace next = plain_brace; // what the next opening brace belongs to
    int parens = 0;
    for (size_t i = 0; i < tok.size(); ++i) {
        const auto& t = tok[i];
        const std::string_view gap = text.substr(begin, t.begin - begin);
        begin = t.begin + t.length;
        const auto prev = i ? tok[i - 1].type : semicolon;
        if (t.type == right_brace) --depth;
        const size_t breaks = std::count(gap.begin(), gap.end(), '\n');
        const std::string at = " before token " + std::to_string(i) + " ('" + std::string(text.substr(t.begin, t.length)) + "')";
        const bool starts_brace_line = t.type == left_brace && (next == plain_brace || (next == function_brace ? o.break_after_function : o.break_after_if));
        bool line_start = i == 0 || prev == semicolon || prev == left_brace || prev == right_brace || t.type == right_brace || starts_brace_line;
        if (prev == right_brace && t.type == keyword_else && o.brace_style == Brace_Style::k_and_r) line_start = false;
        if (i == 0 ? breaks != 0 : line_start ? breaks != (depth == 0 && t.type != left_brace && t.type != right_brace ? 2u : 1u) : breaks != 0) { fail("has " + std::to_string(breaks) + " line breaks" + at); return; }
        if (line_start) {
            const std::string indent = std::string(depth * o.indent_size, o.indent_char);
            const std::string_view lines = gap.substr(0, breaks), blanks = gap.substr(breaks);
            if (lines != std::string(breaks, '\n')) { fail("has blanks at the end of a line" + at); return; }
            if (blanks != indent) { fail("is indented by " + std::to_string(blanks.size()) + " characters at depth " + std::to_string(depth) + at); return; }
        }
        else if (!gap.empty() && gap != " ") { fail("has more than one space" + at); return; }
        else {
            const bool word = ref::ident_char(text[t.begin]) || t.type == left_brace;
            const bool none = prev == left_parenthesis || t.type == right_parenthesis || t.type == semicolon || t.type == comma || t.type == colon;
            if (none && !gap.empty()) { fail("has a space" + at); return; }
            if (!none && gap.empty() && (prev == comma || prev == colon || prev == right_arrow || t.type == right_arrow || t.type == assign || prev == assign || prev == right_brace || t.type == left_brace)) { fail("lacks a space" + at); return; }
            (void)word;
        }
        switch (t.type) {
        case keyword_function: next = function_brace; break;
        case keyword_if: case keyword_while: case keyword_else: if (prev == semicolon || prev == left_brace || prev == right_brace || t.type == keyword_else || prev == keyword_else) { if (next != function_brace) next = if_brace; } break;
        case left_brace: ++depth; next = plain_brace; break;
        case right_brace: case semicolon: next = plain_brace; break;
        default: break;
        }
    }
    if (text.substr(begin) != "\n") fail("ends with more than one line break");
}

void check_generation(std::string_view src, Ctx& ctx)
{
    Pipeline real(src);
    if (!real.ok()) { ctx.outcome(real.stage == Pipeline::analyze ? "not accepted: analysis" : "not accepted: syntax"); return; }
    auto tree = ref::ref_parse(src);
    if (!tree.root) { ctx.outcome("accepted against the grammar"); return; }
    strip_annotations(tree.root);
    std::string want;
    ref::sexp(tree.root.get(), want);
    for (auto& [name, o] : all_options()) {
        auto fail = [&](std::string m) { ctx.fail(std::string("(") + name + ") the generated text " + m); };
        bm::bmd::Code_String out { &real.memory };
        ctx.transitions++;
        auto r = bm::bmd::generate_code(out, *real.analyzed, bm::bmd::Code_Language::bms, o);
        if (!r) { ctx.fail(std::string("(") + name + ") generation fails with code " + std::to_string(int(r.error().code))); return; }
        const std::string text(out.get_text());
        ctx.compared++;
        auto back = ref::ref_parse(text);
        if (!back.root) { fail("is no program: " + escape(text)); return; }
        strip_annotations(back.root);
        std::string got;
        ref::sexp(back.root.get(), got);
        if (got != want) { fail("is another program: " + first_difference(got, want)); return; }
        // parentheses
        auto lexed = ref::ref_lex(text);
        size_t open = 0, need = 0, optional = 0;
        for (auto& t : lexed.tokens) open += t.type == ref::TT::left_parenthesis;
        count_parentheses(tree.root, o.always_parenthesize_subexpressions, need, optional);
        if (open < need || open > need + optional) fail("has " + std::to_string(open) + " pairs of parentheses instead of " + std::to_string(need) + ": " + escape(text));
        // spans: one per token, in order
        size_t k = 0;
        bool spans_ok = true;
        for (auto s : out) {
            if (k >= lexed.tokens.size()) { fail("has a span that is no token"); spans_ok = false; break; }
            const auto& t = lexed.tokens[k++];
            const auto token = std::string_view(text).substr(t.begin, t.length);
            if (s.begin != t.begin || s.length != t.length) { fail("has a span " + std::to_string(s.begin) + "+" + std::to_string(s.length) + " that is not the token '" + std::string(token) + "'"); spans_ok = false; break; }
            if (!type_fits(t.type, token, s.type)) { fail("highlights '" + std::string(token) + "' as " + std::string(code_span_type_tag(s.type))); spans_ok = false; break; }
        }
        if (spans_ok && k != lexed.tokens.size()) fail("has a token without span");
        check_layout(text, lexed.tokens, o, [&](std::string m) { fail(m + ": " + escape(text)); });
        // the implementation accepts its own output, and generates the same text from it
        Pipeline again(text);
        if (!again.ok()) { fail("is rejected: " + again.error + ": " + escape(text)); return; }
        bm::bmd::Code_String out2 { &again.memory };
        auto r2 = bm::bmd::generate_code(out2, *again.analyzed, bm::bmd::Code_Language::bms, o);
        if (!r2 || out2.get_text() != text) fail("is not generated again from itself");
        // appending: earlier contents of the string stay
        bm::bmd::Code_String out3 { &real.memory };
        out3.append("x", Code_Span_Type::error);
        auto r3 = bm::bmd::generate_code(out3, *real.analyzed, bm::bmd::Code_Language::bms, o);
        if (!r3 || out3.get_text() != "x" + text || out3.get_length().span_count != out.get_length().span_count + 1) fail("depends on what the string held before");
        if (!ctx.failures.empty()) return;
    }
    ctx.outcome("round trip");
}

struct Wrapped : Suite {
    std::string own, inner;
    explicit Wrapped(std::string inner) : own("gen_" + inner), inner(std::move(inner)) { }
    const char* name() const override { return own.c_str(); }
    Suite& target() const
    {
        for (auto* s : suites()) if (s->name() == inner) return *s;
        std::abort();
    }
    const char* bound(Tier t) const override { return target().bound(t); }
    unsigned hang_seconds() const override { return std::max(20u, target().hang_seconds()); }
    void enumerate(Tier t, const Emit& e) override { target().enumerate(t, e); }
    void check(std::string_view c, Ctx& ctx) override { check_generation(c, ctx); }
};
struct Register_All {
    Register_All()
    {
        for (auto s : { "syntax_trees", "sequences", "syntax_depth", "names_globals", "names_bodies", "typing_expressions", "typing_statements", "operators_partial", "lazy_evaluation", "scale",
                        "arguments", "control_flow", "function_ends", "loops", "calls", "generic_deduction", "generic_instances", "generic_chains", "assertions", "assertions_dependent", "annotations" })
            suites().push_back(new Wrapped(s));
    }
} register_all;

// Every typed expression tree, written with all parentheses.
struct Trees {
    Strings i { "x", "7", "g(x)", "x_" }, u { "u", "n(u, x)" }, b { "b", "true" };
    void grow(bool full, bool wide)
    {
        auto p = [](const std::string& s) { return "(" + s + ")"; };
        const Strings i0 = i, u0 = u, b0 = b;
        const Strings arith = full ? Strings { "+", "-", "*", "/", "%" } : Strings { "-", "*" };
        const Strings bits = full ? Strings { "&", "|", "^", "<<", ">>" } : Strings { "&", "<<" };
        const Strings cmps = full ? Strings { "==", "!=", "<", ">", "<=", ">=" } : Strings { "==", "<" };
        const Strings logic = full ? Strings { "&&", "||" } : Strings { "&&" };
        auto bin = [&](Strings& to, const Strings& ops, const Strings& from) {
            for (auto& l : from) for (auto& r : from) for (auto& o : ops) to.push_back(p(l) + o + p(r));
        };
        auto cond = [&](Strings& to, const Strings& from) {
            for (auto& l : from) for (auto& c : b0) for (auto& r : from) to.push_back(p(l) + "if" + p(c) + "else" + p(r));
        };
        bin(i, arith, i0);
        bin(u, bits, u0);
        if (wide) bin(u, arith, u0);
        bin(b, cmps, i0);
        bin(b, logic, b0);
        if (wide) { bin(b, cmps, u0); bin(b, { "==", "!=" }, b0); }
        for (auto& e : i0) { i.push_back("-" + p(e)); if (full) i.push_back("+" + p(e)); i.push_back(p(e) + " as Int"); u.push_back(p(e) + " as Uint(8)"); i.push_back("g(" + e + ")"); }
        for (auto& e : u0) { u.push_back("~" + p(e)); i.push_back(p(e) + " as Int"); if (wide) { u.push_back("-" + p(e)); u.push_back(p(e) + " as Uint(" + i0.back() + ")"); i.pop_back(); i.push_back("n(" + e + ", x) as Int"); u.pop_back(); } }
        for (auto& e : b0) b.push_back("!" + p(e));
        cond(i, i0); cond(u, u0); cond(b, b0);
    }
};
const char* prelude = "const x_ = 3; function g(x: Int) -> Int { return x; } function n(u: Uint(8), x: Int) -> Uint(8) { return u; }\n";
struct Expressions : Suite {
    const char* name() const override { return "gen_expressions"; }
    const char* bound(Tier t) const override
    {
        return t == Tier::quick ? "every typed expression tree of depth <=2 over Int, Uint(8) and Bool: 9 operators (2 arithmetic, 2 bitwise, 2 comparison, 1 logical, unary, conversion), conditionals, calls and 8 leaves; every tree of depth 1 over all operators in 14 contexts; 7 option sets"
                                : "the same with all operators at depth 2";
    }
    void enumerate(Tier t, const Emit& emit) override
    {
        auto whole = [&](const std::string& ty, const std::string& e) { return prelude + ("function f(x: Int, u: Uint(8), b: Bool) -> " + ty + " { return " + e + "; }"); };
        Trees one;
        one.grow(true, true);
        const Strings contexts { "let v = $e;", "let v: $t = $e;", "w = $e;", "{ return $e; }", "if true { } else { return $e; }", "g($i);", "n(u, $i);", "n($u, x);", "if $b { }", "while $b { break; }", "if b { } else if $b { } else { }", "static_assert($b);", "const c = $e;", "const c: $t = $e;", "let v: Uint($i);", "return $e if $b else $e;", "return -($i) as $t;" };
        auto in_contexts = [&](const Strings& es, const std::string& ty, char k) {
            for (auto& c : contexts)
                for (auto& e : es) {
                    const std::string i = k == 'i' ? e : "x", u = k == 'u' ? e : "u", b = k == 'b' ? e : "b";
                    if (!emit(prelude + ("function f(x: Int, u: Uint(8), b: Bool) -> " + ty + " { let w: " + ty + "; " + fill(c, { { 'e', e }, { 't', ty }, { 'i', i }, { 'u', u }, { 'b', b } }) + " return " + (k == 'i' ? i : k == 'u' ? u : b) + "; }"))) return false;
                    // the same with constant leaves, where the context needs constants
                    if (c.find("const") != c.npos || c.find("static") != c.npos || c.find("Uint(") != c.npos)
                        if (!emit(prelude + std::string("const x = 2; const u: Uint(8) = 9; const b = true; function f() -> Void { ") + fill(c, { { 'e', e }, { 't', ty }, { 'i', i }, { 'u', u }, { 'b', b } }) + " }\n" + (k == 'b' ? "static_assert(" + e + "); function h() -> Int requires " + e + " { return 1; }" : "const d: " + ty + " = " + e + ";"))) return false;
                }
            return true;
        };
        if (!in_contexts(one.i, "Int", 'i') || !in_contexts(one.u, "Uint(8)", 'u') || !in_contexts(one.b, "Bool", 'b')) return;
        Trees two;
        if (t == Tier::quick) { two.i = { "x", "7" }; two.u = { "u" }; two.b = { "b" }; }
        else { two.i = { "x", "g(x)" }; two.u = { "u" }; two.b = { "b", "true" }; }
        two.grow(true, false);
        two.grow(t != Tier::quick, false);
        for (auto& e : two.i) if (!emit(whole("Int", e))) return;
        for (auto& e : two.u) if (!emit(whole("Uint(8)", e))) return;
        for (auto& e : two.b) if (!emit(whole("Bool", e))) return;
    }
    void check(std::string_view c, Ctx& ctx) override { check_generation(c, ctx); }
};
Register<Expressions> e0;

struct Statements : Suite {
    const char* name() const override { return "gen_statements"; }
    const char* bound(Tier t) const override
    {
        return t == Tier::quick ? "all function bodies of <=4 of 20 statement openings, statements and closings (blocks, if/else/else-if chains, loops, declarations, assignments, calls); 34 declarations, all pairs; 7 option sets"
                                : "all function bodies of <=5 of 20 items; 34 declarations, all triples; 7 option sets";
    }
    void enumerate(Tier t, const Emit& emit) override
    {
        const Strings items { "{", "}", "if b {", "} else {", "} else if x == 1 {", "while b {", "let v: Int;", "let v = x + 1;", "const c = 0x1F;", "w = w + 1;", "h(x);", "k();", "return;", "break;", "continue;", "static_assert(true);", "@unroll while b {", "let a: Uint(8) = 0b11;", "@inline k();", "assert(b);" };
        for (size_t n = 0; n <= (t == Tier::quick ? 4u : 5u); ++n)
            if (!all_bodies(items, n, [&](std::string_view b) { return emit("function k() -> Void { } function h(x: Int) -> Int { return x; } function f(x: Int, b: Bool) -> Void { let w = 0; " + std::string(b) + "}"); })) return;
        const Strings decls { "const a = 1;", "const a: Int = 0xFF;", "const a = true;", "const a: Bool = false;", "const a: Uint(8) = 0b101;", "const a: Uint(4 + 4) = 0o17;", "const a: Void = v();", "function a() -> Void { }", "function a() -> Int { return 1; }", "function a(x: Int) -> Int { return x; }",
            "function a(x: Int, y: Bool) -> Uint(8) { return 1; }", "function a(x: Uint(n), y: Uint(n)) -> Uint(n) { return x; }", "function a(x: Uint(n)) -> Uint(n) requires n > 3 { return x; }", "function a(x: Uint(n)) -> Int requires n > 3 && n < 60 { return n; }", "function a() -> Void requires true { }", "function a() -> Int requires (1 if true else 2) == 1 { return 1; }",
            "static_assert(true);", "static_assert(1 == 1);", "static_assert(c0 == 5);", "@inline function a() -> Void { }", "@inline @java_library(\"x\") function a() -> Void { }", "/* c */ const a = 1; // d\n", "function a(x: Uint(8 if true else 9)) -> Uint(c0) { return 0; }", "function a() -> Uint(8) { let x: Uint(c0 + 3); x = 1; return x; }",
            "function a() -> Int { if true { return 1; } else { return 2; } }", "function a() -> Int { while true { } return 1; }", "const a = v;", "const a = c0;", "const a = f0(1);", "const a = f0(c0) + 1;", "const a = -1;", "const a = ~(5 as Uint(8));", "const a = 1 as Uint(64);", "const a = 340282366920938463463374607431768211455 as Uint(128);" };
        auto rename = [](std::string s, char c) { // the declared name
            for (size_t i = 0; i + 2 < s.size(); ++i)
                if (s[i] == ' ' && s[i + 1] == 'a' && !ref::ident_char(s[i + 2])) s[i + 1] = c;
            return s;
        };
        const std::string head = "const c0 = 5; function v() -> Void { } function f0(x: Int) -> Int { return x; } ";
        for (auto& d : decls) { if (!emit(d)) return; if (!emit(head + d)) return; if (!emit(d + " " + head)) return; }
        for (auto& d : decls)
            for (auto& e : decls) {
                if (!emit(head + d + " " + rename(e, 'z'))) return;
                if (t != Tier::quick)
                    for (auto& f : decls) if (!emit(d + " " + head + rename(e, 'z') + rename(f, 'y'))) return;
            }
    }
    void check(std::string_view c, Ctx& ctx) override { check_generation(c, ctx); }
};
Register<Statements> s0;
}
