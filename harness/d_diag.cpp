// C28: what rendered diagnostics and dumps say.
#include "bms_total.hpp"
#include "bms_suite.hpp"
#include "ref_lex.hpp"
using namespace verif;
using namespace bm::bms;
namespace {

Strings int_values()
{
    return { "0", "1", "-1", "2", "10", "-10", "255", "9223372036854775807", "9223372036854775808", "-9223372036854775809", "18446744073709551616", "10000000000000000000", "100000000000000000000000000000000000000", "170141183460469231731687303715884105727", "-170141183460469231731687303715884105727" };
}
__int128 value_of(std::string_view s)
{
    bool neg = s.starts_with("-");
    if (neg) s.remove_prefix(1);
    __int128 v = 0;
    for (char c : s) v = v * 10 + (c - '0');
    return neg ? -v : v;
}
template <typename T> bool compare(const T& a, std::string_view op, const T& b)
{
    return op == "==" ? a == b : op == "!=" ? a != b : op == "<" ? a < b : op == ">" ? a > b : op == "<=" ? a <= b : a >= b;
}

// The last line of a case is a comment with the expected note ("none": accepted).
struct Values : Suite {
    const char* name() const override { return "diag_values"; }
    const char* bound(Tier) const override
    {
        return "all comparisons of 15 Int values, of 6 values of Uint(8), Uint(64), Uint(65) and Uint(128) and of Bools by each comparison operator in static_assert (of literals and of named constants) and in assert (directly, after an earlier failed comparison, in a caller or a callee); all width values at the limits in 6 contexts";
    }
    void enumerate(Tier, const Emit& emit) override
    {
        bool go = true;
        auto put = [&](const std::string& src, const std::string& note) { return go = go && emit(src + "\n//" + note); };
        auto all = [&](const std::string& type, const Strings& values, auto&& val) {
            for (std::string op : { "==", "!=", "<", ">", "<=", ">=" }) {
                if (type == "Bool" && op.size() + (op[0] == '<' || op[0] == '>') != 2) continue;
                if (type == "Bool" && op != "==" && op != "!=") continue;
                for (auto& x : values)
                    for (auto& y : values) {
                        const bool ok = compare(val(x), op, val(y));
                        const std::string shown_x = x, shown_y = y;
                        const std::string note = ok ? "none" : "Comparison evaluated to " + shown_x + " " + op + " " + shown_y;
                        auto lit = [&](const std::string& v) { return type == "Bool" || type == "Int" ? "(" + v + ")" : "(" + v + " as " + type + ")"; };
                        if (!put("static_assert(" + lit(x) + " " + op + " " + lit(y) + ");", note)) return;
                        if (!put("const a: " + type + " = " + x + "; const b: " + type + " = " + y + "; static_assert(a " + op + " b);", note)) return;
                        const std::string f = "function f(a: " + type + ", b: " + type + ") -> Bool { assert(a " + op + " b); return true; }";
                        if (!put(f + " const c = f(" + x + ", " + y + ");", note)) return;
                        if (!put("function f(a: " + type + ", b: " + type + ") -> Bool { if 1 == 2 { return 3 > 4; } let d = 5 < 4; assert(a " + op + " b); return true; } const c = f(" + x + ", " + y + ");", note)) return;
                        if (!put(f + " function g(a: " + type + ", b: " + type + ") -> Bool { assert(!(7 == 8)); return f(a, b); } const c = g(" + x + ", " + y + ");", note)) return;
                        // a failing value that is no comparison
                        if (!ok && !put("function f(a: " + type + ", b: " + type + ") -> Bool { let d = a " + op + " b; assert(d); return true; } const c = f(" + x + ", " + y + ");", "Caused by: Assertion failed.")) return;
                        if (!put("const c = (" + lit(x) + " " + op + " " + lit(y) + "); static_assert(c);", ok ? "none" : "The following expression must evaluate to 'true', but evaluated to 'false':")) return;
                        if (ok && !put("static_assert(!(" + lit(x) + " " + op + " " + lit(y) + "));", "The following expression must evaluate to 'true', but evaluated to 'false':")) return;
                    }
            }
        };
        all("Int", int_values(), [](const std::string& s) { return value_of(s); });
        all("Bool", { "false", "true" }, [](const std::string& s) { return s == "true"; });
        all("Uint(8)", { "0", "1", "127", "128", "254", "255" }, [](const std::string& s) { return value_of(s); });
        all("Uint(64)", { "0", "9223372036854775807", "9223372036854775808", "10000000000000000000", "18446744073709551615" }, [](const std::string& s) { return value_of(s); });
        all("Uint(65)", { "0", "18446744073709551615", "18446744073709551616", "36893488147419103231" }, [](const std::string& s) { return value_of(s); });
        all("Uint(128)", { "0", "170141183460469231731687303715884105727", "100000000000000000000000000000000000000" }, [](const std::string& s) { return value_of(s); });
        for (std::string op : { "==", "<", ">" }) // beyond what an Int can hold
            for (auto [e, shown] : { std::pair<std::string, std::string> { "(0 as Uint(128)) - (1 as Uint(128))", "340282366920938463463374607431768211455" }, { "(1 as Uint(128)) << (127 as Uint(128))", "170141183460469231731687303715884105728" }, { "0 as Uint(128)", "0" } })
                for (auto [e2, shown2] : { std::pair<std::string, std::string> { "(0 as Uint(128)) - (1 as Uint(128))", "340282366920938463463374607431768211455" }, { "(1 as Uint(128)) << (127 as Uint(128))", "170141183460469231731687303715884105728" }, { "0 as Uint(128)", "0" } }) {
                    const bool ok = shown.size() != shown2.size() ? compare(shown.size(), op, shown2.size()) : compare(shown, op, shown2);
                    if (!put("static_assert((" + e + ") " + op + " (" + e2 + "));", ok ? "none" : "Comparison evaluated to " + shown + " " + op + " " + shown2)) return;
                }
        for (auto& w : { "0", "-1", "1", "127", "128", "129", "-128", "-129", "255", "256", "257", "18446744073709551616", "18446744073709551617", "-18446744073709551615", "4294967297", "170141183460469231731687303715884105727", "-170141183460469231731687303715884105727" }) {
            const auto v = value_of(w);
            const std::string note = v < 0 ? "The width evaluated to " + std::string(w) + ", but widths must be positive." : v == 0 ? "The width evaluated to 0, but widths shall not be zero." : v > 128 ? "The width evaluated to " + std::string(w) + ", but the maximum allowed is 128." : "none";
            for (std::string t : { "const a: Uint($) = 0;", "const a = 0 as Uint($);", "const n = $; const a: Uint(n) = 0;", "function f() -> Uint($) { return 0; } const a = f();", "function f(x: Uint($)) -> Int { return 1; }", "function f(x: Uint(N)) -> Int { let z: Uint(N + ($)) = 0; return 1; } const a = f(0 as Uint(1));" }) {
                std::string s = t, n = note;
                if (auto k = s.find("N + ($)"); k != s.npos) {
                    if (v == 128 || v == 0 || v == -1) continue;
                    if (v > 1 || v < 0) { // the sum
                        if (v == value_of("170141183460469231731687303715884105727")) continue;
                        std::string sum;
                        auto u = v + 1;
                        unsigned __int128 a = u < 0 ? -(unsigned __int128)u : (unsigned __int128)u;
                        if (!a) sum = "0";
                        while (a) { sum.insert(sum.begin(), char('0' + int(a % 10))); a /= 10; }
                        if (u < 0) sum.insert(sum.begin(), '-');
                        n = u < 0 ? "The width evaluated to " + sum + ", but widths must be positive." : u > 128 ? "The width evaluated to " + sum + ", but the maximum allowed is 128." : "none";
                    }
                }
                std::string lit = w;
                s.replace(s.find('$'), 1, lit[0] == '-' ? "(" + lit + ")" : lit);
                if (!put(s, n)) return;
            }
        }
    }
    void check(std::string_view c, Ctx& ctx) override
    {
        const auto cut = c.rfind("\n//");
        const std::string note(c.substr(cut + 3));
        ctx.outcome(note == "none" ? "none" : note.substr(0, 22));
        ctx.transitions++;
        ctx.compared++;
        std::pmr::unsynchronized_pool_resource memory;
        std::pmr::vector<Token> tokens(&memory);
        if (!tokenize(tokens, c)) return ctx.fail("not tokenized");
        Parsed_Program parsed(c, &memory);
        if (!parse(parsed, tokens)) return ctx.fail("not parsed");
        Analyzed_Program analyzed(parsed, "case.bms", &memory);
        auto r = analyze(analyzed, parsed, &memory);
        if (bool(r) != (note == "none")) return ctx.fail(r ? "accepted, expected: " + note : "rejected: " + error_name(r.error()));
        if (r) return;
        std::ostringstream out;
        bm::print_analysis_error(out, parsed, r.error(), false);
        bool found = false;
        for (auto& l : lines_of(out.str())) {
            const bool this_one = l.ends_with(": " + note);
            if (!this_one && l.find("Comparison evaluated") != l.npos) return ctx.fail("wrong comparison: " + l + ", expected: " + note);
            found |= this_one;
        }
        if (!found) ctx.fail("lacks '" + note + "': " + out.str());
    }
};
Register<Values> r0;

// The token dump lists exactly the tokens, at their positions.
struct Token_Dump : Suite {
    const char* name() const override { return "diag_token_dump"; }
    const char* bound(Tier t) const override { return t == Tier::quick ? "all sequences of <=2 of 70 lexemes in 4 layouts" : "all sequences of <=3 of 70 lexemes in 4 layouts"; }
    void enumerate(Tier t, const Emit& emit) override
    {
        Strings l { "a", "abc_9", "0", "7", "017", "42", "0b101", "0b0", "0xff", "0x1", "\"s\"", "\"\"", "\"a\\\"b c\"", "//", "// c", "/**/", "/* c\n d */" };
        for (auto& o : ref::operators) l.emplace_back(o.text);
        for (auto& o : ref::keywords) l.emplace_back(o.text);
        for (size_t n = 1; n <= (t == Tier::quick ? 2u : 3u); ++n)
            for (auto sep : { " ", "\n", "\t", "\r\n \t" })
                if (!all_sequences(l, n, sep, emit) || !all_sequences(l, n, sep, [&](std::string_view s) { return emit(sep + std::string(s) + "\n"); })) return;
        for (int lines : { 8, 9, 98, 99, 998 }) // column widths of the listing
            for (int columns : { 0, 8, 9, 98, 99 })
                if (!emit(std::string(lines, '\n') + std::string(columns, ' ') + "x")) return;
    }
    void check(std::string_view c, Ctx& ctx) override
    {
        ctx.transitions++;
        ctx.compared++;
        auto want = ref::ref_lex(c);
        std::pmr::vector<Token> tokens;
        auto r = tokenize(tokens, c);
        ctx.outcome(want.error ? "lexical error" : "tokens");
        if (bool(r) == bool(want.error)) return ctx.fail("tokenized differently");
        if (!r) return;
        std::ostringstream out;
        bm::print_tokens(out, tokens, c);
        std::string expected;
        for (auto& t : want.tokens) {
            char head[64];
            std::snprintf(head, sizeof head, "%2zu:%2zu: ", t.line + 1, t.column + 1);
            expected += head;
            expected += token_type_name(t.type);
            const bool fixed = std::any_of(std::begin(ref::operators), std::end(ref::operators), [&](auto& o) { return o.type == t.type; }) || std::any_of(std::begin(ref::keywords), std::end(ref::keywords), [&](auto& o) { return o.type == t.type; });
            if (!fixed) {
                expected += "(" + std::string(c.substr(t.begin, t.length)) + ")";
                if (t.length > 1) expected += " (" + std::to_string(t.length) + " characters)";
            }
            expected += "\n";
        }
        if (out.str() != expected) ctx.fail("dump is:\n" + out.str() + "expected:\n" + expected);
    }
};
Register<Token_Dump> r1;

// Syntax errors name the unexpected token, and each token they expect would indeed be acceptable.
struct Expectations : Suite {
    std::string own, inner;
    Expectations(std::string inner) : own("diag_expected_" + inner), inner(std::move(inner)) { }
    const char* name() const override { return own.c_str(); }
    Suite& target() const
    {
        for (auto* s : suites()) if (s->name() == inner) return *s;
        std::abort();
    }
    const char* bound(Tier t) const override { return target().bound(t); }
    void enumerate(Tier t, const Emit& e) override { target().enumerate(t, e); }
    static std::string spelling(Token_Type t)
    {
        switch (t) {
        case Token_Type::identifier: return "a";
        case Token_Type::decimal_literal: return "1";
        case Token_Type::binary_literal: return "0b1";
        case Token_Type::octal_literal: return "01";
        case Token_Type::hexadecimal_literal: return "0x1";
        case Token_Type::string_literal: return "\"\"";
        case Token_Type::line_comment: return "//\n";
        case Token_Type::block_comment: return "/**/";
        default:
            for (auto& o : ref::operators) if (o.type == t) return std::string(o.text);
            for (auto& o : ref::keywords) if (o.type == t) return std::string(o.text);
        }
        return "?";
    }
    void check(std::string_view c, Ctx& ctx) override
    {
        std::pmr::unsynchronized_pool_resource memory;
        std::pmr::vector<Token> tokens(&memory);
        ctx.transitions++;
        if (!tokenize(tokens, c)) return ctx.outcome("lexical error");
        Parsed_Program parsed(c, &memory);
        auto r = parse(parsed, tokens);
        if (r) return ctx.outcome("accepted");
        ctx.outcome("syntax error");
        ctx.compared++;
        auto& e = r.error();
        std::ostringstream out;
        bm::print_parse_error(out, "case.bms", c, e, false);
        auto ls = lines_of(out.str());
        if (ls.size() != 4) return ctx.fail("unexpected form: " + out.str());
        std::string got = "unexpected end of file";
        for (auto& t : tokens)
            if (t.pos.begin == e.fail_token.pos.begin && t.type != Token_Type::line_comment && t.type != Token_Type::block_comment) {
                const auto s = spelling(t.type);
                got = "unexpected token " + std::string(token_type_readable_name(t.type));
            }
        if (ls[0].find(": error: " + got + " while matching '") == std::string::npos) return ctx.fail("does not say '" + got + "': " + ls[0]);
        std::string list;
        for (auto& t : e.expected_tokens) {
            const std::string n(token_type_readable_name(t));
            list += list.empty() ? n : (&t == &*std::prev(e.expected_tokens.end()) ? ", or " : ", ") + n;
        }
        if (e.expected_tokens.size() > 1) list = "one of: " + list;
        if (e.expected_tokens.empty()) list = "nothing";
        if (!ls[1].ends_with(": note: expected " + list)) return ctx.fail("does not say 'expected " + list + "': " + ls[1]);
        for (auto t : e.expected_tokens) {
            const std::string s = std::string(c.substr(0, e.fail_token.pos.begin)) + " " + spelling(t);
            std::pmr::vector<Token> more(&memory);
            if (!tokenize(more, s)) return ctx.fail("expected token is none: " + s);
            Parsed_Program again(s, &memory);
            auto q = parse(again, more);
            ctx.transitions++;
            if (!q && q.error().fail_token.pos.length != 0) return ctx.fail("expected token is not accepted: " + s);
        }
    }
};
struct Register_All {
    Register_All() { for (auto s : { "syntax_tokens", "syntax_edits", "syntax_trees" }) suites().push_back(new Expectations(s)); }
} r2;

} // namespace
