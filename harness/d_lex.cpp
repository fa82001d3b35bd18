// Lexical layer: real tokenizer vs. a table-driven reference lexer, and integer literals vs.
// exact arithmetic.
#include "bms_common.hpp"
#include "ref_lex.hpp"
#include "common/parse.hpp"

using namespace verif;
using namespace bm;
using namespace bm::bms;

namespace {

using namespace ref;
void check_lex(std::string_view src, Ctx& ctx)
{
    std::pmr::monotonic_buffer_resource mem;
    std::pmr::vector<Token> out(&mem);
    auto result = tokenize(out, src);
    const Ref_Result ref = ref_lex(src);
    ctx.transitions += ref.tokens.size() + 1;
    ctx.compared++;
    ctx.outcome(ref.error ? "rejected" : "accepted");
    if (bool(result) != !ref.error) {
        ctx.fail(std::string("tokenizer ") + (result ? "accepts" : "rejects") + ", reference "
                 + (ref.error ? "rejects" : "accepts"));
        return;
    }
    if (!result) {
        if (result.error().code != *ref.error) ctx.fail("wrong tokenize error code");
        if (result.error().pos.begin != ref.error_begin)
            ctx.fail("tokenize error at " + std::to_string(result.error().pos.begin)
                     + ", expected " + std::to_string(ref.error_begin));
        auto [line, column] = line_and_column(src, ref.error_begin);
        if (result.error().pos.line != line || result.error().pos.column != column)
            ctx.fail("tokenize error in line " + std::to_string(result.error().pos.line) + ", column " + std::to_string(result.error().pos.column)
                     + ", expected " + std::to_string(line) + ", " + std::to_string(column));
    }
    if (out.size() != ref.tokens.size()) {
        ctx.fail("token count " + std::to_string(out.size()) + ", expected "
                 + std::to_string(ref.tokens.size()));
        return;
    }
    for (size_t i = 0; i < out.size(); ++i) {
        auto& a = out[i];
        auto& b = ref.tokens[i];
        std::string at = "token " + std::to_string(i) + ": ";
        if (a.type != b.type)
            ctx.fail(at + "type " + std::string(token_type_name(a.type)) + ", expected "
                     + std::string(token_type_name(b.type)));
        if (a.pos.begin != b.begin || a.pos.length != b.length)
            ctx.fail(at + "span " + std::to_string(a.pos.begin) + "+" + std::to_string(a.pos.length)
                     + ", expected " + std::to_string(b.begin) + "+" + std::to_string(b.length));
        if (a.pos.line != b.line) ctx.fail(at + "line " + std::to_string(a.pos.line));
        if (a.pos.column != b.column)
            ctx.fail(at + "column " + std::to_string(a.pos.column) + ", expected "
                     + std::to_string(b.column));
    }
}

const std::vector<std::string> class_alphabet
    = { "a", "F", "x", "b", "_", "0", "1", "8", " ", "\n", "\r", "\t", "/", "*", "\"", "\\", "=",
        "<", ">", "&", "|", "-", "!", "(", "@", "$", ":" };

struct Lex_Strings : Suite {
    const char* name() const override { return "lex_strings"; }
    const char* bound(Tier t) const override
    {
        return t == Tier::quick
            ? "every byte string of length <= 2 over all 256 bytes; every string of length <= 5 over 27 "
              "representatives of the lexer's character classes"
            : "every byte string of length <= 2 over all 256 bytes; every string of length <= 6 over 27 "
              "representatives of the lexer's character classes";
    }
    void enumerate(Tier t, const std::function<bool(std::string_view)>& emit) override
    {
        if (!emit("")) return;
        std::string s(1, 0);
        for (int a = 0; a < 256; ++a) { s[0] = char(a); if (!emit(s)) return; }
        s.resize(2);
        for (int a = 0; a < 256; ++a)
            for (int b = 0; b < 256; ++b) { s[0] = char(a); s[1] = char(b); if (!emit(s)) return; }
        for (size_t n = 3; n <= (t == Tier::quick ? 5u : 6u); ++n)
            if (!all_sequences(class_alphabet, n, "", emit)) return;
    }
    void check(std::string_view c, Ctx& ctx) override { check_lex(c, ctx); }
};
Register<Lex_Strings> r1;

struct Lex_Lexemes : Suite {
    const char* name() const override { return "lex_lexemes"; }
    const char* bound(Tier t) const override
    {
        return t == Tier::quick
            ? "every sequence of <= 3 of 73 lexemes under 6 separators; every keyword/identifier near-miss"
            : "every sequence of <= 3 of 73 lexemes under 6 separators and of 4 under 2 separators; every keyword/identifier near-miss";
    }
    void enumerate(Tier t, const std::function<bool(std::string_view)>& emit) override
    {
        std::vector<std::string> lexemes;
        for (auto& o : operators) lexemes.emplace_back(o.text);
        for (auto& o : keywords) lexemes.emplace_back(o.text);
        for (auto x : { "a", "_x1", "0", "017", "42", "0xfF", "0b10", "\"s\"", "\"\\\"\"", "// c\n",
                        "/* c */", "/* \n */", "/*\r*/", "/*\t\r\n\t*/", "\"\t\"", "\"\n\r\"", "/**/", "//", "0x", "0b2", "08", "1a", "\"" })
            lexemes.emplace_back(x);
        const char* seps[] = { "", " ", "\n", "/**/", "\t", "\r\n" };
        for (size_t n = 1; n <= (t == Tier::quick ? 3u : 4u); ++n)
            for (size_t k = 0; k < (n == 4 ? 2 : 6); ++k)
                if (!all_sequences(lexemes, n, seps[k], emit)) return;
        // near misses: every keyword with one character dropped, doubled or case-flipped
        for (auto& k : keywords)
            for (size_t i = 0; i < k.text.size(); ++i) {
                std::string w(k.text);
                std::string d = w;
                d.erase(i, 1);
                std::string u = w;
                u.insert(i, 1, w[i]);
                std::string f = w;
                f[i] ^= 0x20;
                for (auto& x : { d, u, f }) if (!emit(x) || !emit(x + " " + w)) return;
            }
        // each lexeme followed by trailing whitespace / at the end of input
        for (auto& l : lexemes)
            for (auto sfx : { " ", "\n", "\t", "\r\n", "\n\n" })
                if (!emit(l + sfx) || !emit(sfx + l)) return;
    }
    void check(std::string_view c, Ctx& ctx) override { check_lex(c, ctx); }
};
Register<Lex_Lexemes> r2;

// Tokens, lines, columns and texts of every size.
struct Lex_Sizes : Suite {
    const char* name() const override { return "lex_sizes"; }
    unsigned hang_seconds() const override { return 60; }
    const char* bound(Tier) const override { return "22 templates with n characters, tokens, lines, tabs or comments, each alone and with something behind (a token, an illegal character, an unfinished string or comment), for every n in 0..40, 63..65, 127..129, 255..257, 511..513, 1023..1025, 4095..4097, 32767..32769, 65535..65537"; }
    void enumerate(Tier, const std::function<bool(std::string_view)>& emit) override
    {
        std::vector<size_t> ns;
        for (size_t i = 0; i <= 40; ++i) ns.push_back(i);
        for (size_t k : { 64, 128, 256, 512, 1024, 4096, 32768, 65536 }) for (size_t d : { 0, 1, 2 }) ns.push_back(k - 1 + d);
        for (size_t n : ns) {
            auto rep = [&](std::string_view x) { std::string r; for (size_t i = 0; i < n; ++i) r += x; return r; };
            const std::string texts[] = { rep("a"), rep("7"), "0x" + rep("f"), "0b" + rep("1"), "0" + rep("0"), rep(" "), rep("\t"), rep("\n"), rep("\r\n"), rep(" \t "), rep("a "), rep("if\n"), rep("<"), rep("<<="), "\"" + rep("s") + "\"", "\"" + rep("\\\"") + "\"",
                                          rep("\"\""), "//" + rep("c"), rep("//\n"), "/*" + rep("*") + "*/", "/*" + rep("\n\t") + "*/", rep("/**/") };
            for (auto& t : texts)
                for (auto tail : { "", "\n", " x", "x", "\nx", " $", "$", " \"", "/*", "\n/* \n" })
                    if (!emit(t + tail)) return;
        }
    }
    void check(std::string_view c, Ctx& ctx) override { check_lex(c, ctx); }
};
Register<Lex_Sizes> r_sizes;

// Each token kind's own tables agree with its spelling.
struct Lex_Tables : Suite {
    const char* name() const override { return "lex_tables"; }
    const char* bound(Tier) const override { return "every token kind"; }
    void enumerate(Tier, const std::function<bool(std::string_view)>& emit) override
    {
        for (auto& o : operators) if (!emit(o.text)) return;
        for (auto& o : keywords) if (!emit(o.text)) return;
    }
    void check(std::string_view c, Ctx& ctx) override
    {
        Token_Type t {};
        for (auto& o : operators) if (o.text == c) t = o.type;
        for (auto& o : keywords) if (o.text == c) t = o.type;
        ctx.transitions++;
        ctx.compared += 2;
        if (token_type_length(t) != c.size()) ctx.fail("token_type_length is " + std::to_string(token_type_length(t)));
        if (token_type_code_name(t) != c) ctx.fail("token_type_code_name is '" + std::string(token_type_code_name(t)) + "'");
        if (token_type_readable_name(t) != "'" + std::string(c) + "'")
            ctx.fail("token_type_readable_name is " + std::string(token_type_readable_name(t)));
    }
};
Register<Lex_Tables> r3;

// ---- integer literals ----------------------------------------------------------------------

// Exact value modulo nothing: returns nullopt if it exceeds 2^127 - 1 (or -2^127 when negative).
std::optional<Big_Int> exact(std::string_view s)
{
    bool neg = false;
    if (s.starts_with("-")) { neg = true; s.remove_prefix(1); }
    int base = 10;
    if (s.starts_with("0b")) { base = 2; s.remove_prefix(2); }
    else if (s.starts_with("0x")) { base = 16; s.remove_prefix(2); }
    else if (s.starts_with("0")) base = 8;
    if (s.empty()) return {};
    unsigned __int128 v = 0;
    const unsigned __int128 limit = ((unsigned __int128)1 << 127) - (neg ? 0 : 1);
    for (char c : s) {
        if (!digit_of(c, base)) return {};
        int d = c <= '9' ? c - '0' : (c | 0x20) - 'a' + 10;
        if (v > (limit - d) / base) return {};
        v = v * base + d;
    }
    return neg ? Big_Int(-v) : Big_Int(v);
}

std::string render(unsigned __int128 hi, unsigned __int128 lo, int base)
{ // value = hi * 2^128 + lo (hi small)
    std::vector<int> digits; // base-`base`, little endian, by double-and-add over bits
    digits.push_back(0);
    auto dbl = [&](int carry) {
        for (auto& d : digits) { d = 2 * d + carry; carry = d / base; d %= base; }
        if (carry) digits.push_back(carry);
    };
    for (int i = 127; i >= 0; --i) dbl(int(hi >> i & 1));
    for (int i = 127; i >= 0; --i) dbl(int(lo >> i & 1));
    std::string r;
    for (size_t i = digits.size(); i-- > 0;) r += "0123456789abcdef"[digits[i]];
    return r;
}

struct Literals : Suite {
    const char* name() const override { return "literals"; }
    const char* bound(Tier t) const override
    {
        return t == Tier::quick
            ? "every literal with <= 8 binary, 4 octal, 4 decimal or 3 hexadecimal (either case) digits; "
              "2^k-1, 2^k, 2^k+1 and base^k-1, base^k for every k <= 135 in all four bases, each with and "
              "without a sign and with extra digits; through both the number parser and a whole program"
            : "every literal with <= 12 binary, 6 octal, 5 decimal or 4 hexadecimal (either case) digits; "
              "2^k-1, 2^k, 2^k+1 and base^k-1, base^k for every k <= 135 in all four bases, each with and "
              "without a sign and with extra digits; through both the number parser and a whole program";
    }
    void enumerate(Tier t, const std::function<bool(std::string_view)>& emit) override
    {
        bool th = t == Tier::thorough;
        auto all = [&](std::string prefix, std::string digits, size_t max) {
            std::vector<std::string> a;
            for (char c : digits) a.emplace_back(1, c);
            for (size_t n = 1; n <= max; ++n)
                if (!all_sequences(a, n, "", [&](std::string_view s) {
                        std::string x = prefix + std::string(s);
                        return emit("p" + x) && emit("p-" + x) && emit("P" + x);
                    })) return false;
            return true;
        };
        for (auto s : { "", "-", "0b", "0x", "0", "-0", "-0x", "0b2", "0xg", "a", "08", "1_", "+1", " 1", "1 ", "0X1", "0B1", "--1", "00", "-00" })
            if (!emit("p" + std::string(s))) return;
        if (!all("0b", "01", th ? 12 : 8)) return;
        if (!all("0", "01234567", th ? 6 : 4)) return;
        if (!all("", "123456789", 1)) return;
        for (int i = 10; i < (th ? 100000 : 10000); ++i)
            if (!emit("p" + std::to_string(i)) || !emit("P" + std::to_string(i))) return;
        if (!all("0x", "0123456789abcdefABCDEF", th ? 4 : 3)) return;
        struct { const char* prefix; int base; } bases[] = { { "0b", 2 }, { "0", 8 }, { "", 10 }, { "0x", 16 } };
        for (auto& b : bases) {
            auto put = [&](std::string d) {
                std::string up = d;
                for (auto& ch : up) ch = char(std::toupper(ch));
                for (auto& e : { d, up, d + "0", d + "1", d + "0000000", "0" + d })
                    if (b.base != 10 || e[0] != '0')
                        for (auto sgn : { "", "-" })
                            if (!emit("p" + std::string(sgn) + b.prefix + e) || !emit("P" + (b.prefix + e))) return false;
                return true;
            };
            for (int k = 0; k <= 135; ++k)
                for (int d = -1; d <= 1; ++d) {
                    unsigned __int128 hi = k >= 128 ? (unsigned __int128)1 << (k - 128) : 0;
                    unsigned __int128 lo = k >= 128 ? 0 : (unsigned __int128)1 << k;
                    if (d == 1) lo += 1;
                    if (d == -1) { if (lo == 0) --hi; --lo; }
                    std::string s = render(hi, lo, b.base);
                    if (!put(s)) return;
                }
            for (int k = 1; k <= 135; ++k) {
                char top = "0123456789abcdef"[b.base - 1];
                if (!put(std::string(k, top)) || !put("1" + std::string(k, '0'))) return;
            }
        }
    }
    void check(std::string_view c, Ctx& ctx) override
    {
        auto lit = c.substr(1);
        auto want = exact(lit);
        ctx.transitions++;
        ctx.compared++;
        if (c[0] == 'p') {
            auto got = parse_integer_literal(lit);
            ctx.outcome(want ? "parser: value" : "parser: rejected");
            if (bool(got) != bool(want)) ctx.fail(got ? "accepted, but not representable/valid" : "rejected a valid literal");
            else if (got && *got != *want) ctx.fail("wrong value " + str(*got) + ", expected " + str(*want));
            return;
        }
        Pipeline p("const x = " + std::string(lit) + ";");
        ctx.outcome(want ? "program: value" : "program: diagnosed");
        if (p.ok() != bool(want)) { ctx.fail(p.ok() ? "program accepted, literal unrepresentable" : "program with valid literal rejected: " + p.error); return; }
        if (!p.ok()) {
            if (p.stage == Pipeline::analyze && p.error != "invalid_integer_literal") ctx.fail("wrong diagnostic " + p.error);
            return;
        }
        auto v = p.const_value("x");
        if (!v) { ctx.fail("constant has no value"); return; }
        if (v->type != Concrete_Type::Int) ctx.fail("literal is not of type Int");
        if (v->int_value != *want) ctx.fail("wrong value " + str(v->int_value) + ", expected " + str(*want));
    }
};
Register<Literals> r4;

} // namespace
