// C21, C25: the HTML writer, the token consumers and code strings, explored by all operation
// histories of a bound against models written from their documentation.
#include <sstream>

#include "bms_suite.hpp"
#include "bms_total.hpp"
#include "common/ansi.hpp"
#include "bmd/codegen/code_string.hpp"
#include "bmd/html/html_writer.hpp"
#include "bmd/html/token_consumer.hpp"
#include "cli/glue.hpp"

using namespace verif;
namespace d = bm::bmd;
namespace {
using Type = d::HTML_Token_Type;
using Style = d::Formatting_Style;

std::vector<int> digits(std::string_view c)
{
    std::vector<int> r;
    for (char x : c) r.push_back(x >= 'a' ? x - 'a' + 10 : x >= 'A' ? x - 'A' + 36 : x - '0');
    return r;
}
Strings letters(std::string_view s)
{
    Strings r;
    for (char c : s) r.push_back({ c });
    return r;
}

// ---- C21: the writer ------------------------------------------------------------------------

struct Tokens {
    std::vector<std::pair<Type, std::string>> list;
    void add(Type t, std::string_view s)
    {
        if (s.empty()) return;
        if (!list.empty() && list.back().first == t) list.back().second += s;
        else list.emplace_back(t, s);
    }
    std::string text() const
    {
        std::string r;
        for (auto& t : list) r += t.second;
        return r;
    }
    std::string show() const
    {
        std::string r;
        for (auto& t : list) r += std::to_string(int(t.first)) + "'" + escape(t.second) + "' ";
        return r;
    }
};

struct Recorder final : d::HTML_Token_Consumer {
    Tokens tokens;
    bool write(char c, Type t) final { tokens.add(t, { &c, 1 }); return true; }
    bool write(char c, bm::Size n, Type t) final { tokens.add(t, std::string(n, c)); return true; }
    bool write(std::string_view s, Type t) final { tokens.add(t, s); return true; }
};

// What the documentation of HTML_Writer promises, as a state machine.
struct Model {
    Tokens out;
    size_t width, depth = 0, indent_depth = 0;
    bool begun = false, at_line_start = false;
    static bool block_like(Style s) { return s == Style::flat || s == Style::block; }
    void line() { out.add(Type::whitespace, "\n"); at_line_start = true; }
    void before(Style s)
    {
        if (block_like(s) && !at_line_start) line();
        if (at_line_start && s != Style::pre) out.add(Type::whitespace, std::string(width * indent_depth, ' '));
        at_line_start = false;
    }
    void after(Style s) { if (block_like(s)) line(); }
    void text(std::string_view s)
    {
        for (char c : s) out.add(Type::inner_text, c == '<' ? "&lt;" : c == '>' ? "&gt;" : c == '&' ? "&amp;" : std::string(1, c));
        at_line_start = false;
    }
    size_t inner(std::string_view s, Style style)
    {
        if (style == Style::pre) return text(s), 1;
        size_t lines = 0;
        while (!s.empty()) {
            ++lines;
            before(style);
            const size_t n = s.find('\n');
            text(s.substr(0, n));
            if (n == s.npos) break;
            line();
            s.remove_prefix(n + 1);
        }
        return lines;
    }
    void attribute(std::string_view key, std::string_view value)
    {
        out.add(Type::whitespace, " ");
        out.add(Type::attribute_key, key);
        if (value.empty()) return;
        out.add(Type::attribute_equal, "=");
        std::string v;
        for (char c : value) v += c == '"' ? "&quot;" : c == '&' ? "&amp;" : std::string(1, c);
        const bool quoted = value.find_first_of("\"/'`=<>& \t\n\r\f") != value.npos;
        if (quoted) out.add(Type::attribute_quote, "\"");
        out.add(Type::attribute_value, v);
        if (quoted) out.add(Type::attribute_quote, "\"");
    }
    void open(std::string_view id, Style s)
    {
        before(s);
        out.add(Type::tag_bracket, "<");
        out.add(Type::tag_identifier, id);
    }
    void opened(Style s)
    {
        out.add(Type::tag_bracket, ">");
        after(s);
        indent_depth += s == Style::block;
        ++depth;
    }
    void empty(std::string_view bracket, Style s)
    {
        out.add(Type::tag_bracket, bracket);
        after(s);
    }
    void close(std::string_view id, Style s)
    {
        indent_depth -= s == Style::block;
        before(s);
        out.add(Type::tag_bracket, "</");
        out.add(Type::tag_identifier, id);
        out.add(Type::tag_bracket, ">");
        after(s);
        --depth;
    }
};

bm::Local_Source_Span span(size_t line, size_t column, size_t begin, size_t length) { return { { line, column, begin }, length }; }

struct Histories : Suite {
    const char* name() const override { return "writer_histories"; }
    const char* bound(Tier t) const override
    {
        return t == Tier::quick ? "all histories of <=4 of 34 operations and <=5 of 17 (tags of all styles with and without attributes, comments, texts, gaps, misuses), all nestings of <=6 tags of 5 kinds around 6 contents, nestings to depth 130; with and without preamble, for indent widths 0, 2 and 3; output, token types, completeness and refusals after each operation"
                                : "the same with <=5 of 34 and <=6 of 17 operations and nestings of <=7 tags";
    }
    void enumerate(Tier t, const Emit& emit) override
    {
        const Strings all = letters("0123456789abcdefghijklmnopqrstuvwx"), core = letters("23456789bcefjmnou");
        const size_t n = t == Tier::quick ? 4 : 5;
        for (auto w : { "2", "0", "3" }) {
            auto with = [&](std::string p) { return [&emit, p = w + p](std::string_view s) { return emit(p + std::string(s)); }; };
            for (size_t k = 1; k <= (*w == '2' ? n : n - 1); ++k)
                if (!all_sequences(all, k, "", with("0"))) return;
            if (!all_sequences(core, n + (*w == '2'), "", with("0"))) return;
            for (size_t k = 1; k <= 2; ++k)
                if (!all_sequences(all, k, "", with(""))) return;
            // nesting: tags, something within, and their ends
            const Strings tags = letters("1234j");
            for (size_t k = n + 1; k <= n + (*w == '2' ? 2 : 1); ++k)
                for (auto inner : { "", "b", "f", "d", "m", "8" })
                    if (!all_sequences(tags, k, "", [&](std::string_view s) { return emit(w + ("0" + std::string(s)) + inner + std::string(k, '5')); })) return;
            for (auto& a : tags)
                for (auto& b : tags)
                    for (size_t k : { 7, 8, 15, 16, 17, 30, 64, 65, 130 }) {
                        std::string s;
                        for (size_t i = 0; i < k; ++i) s += i % 2 ? a : b;
                        if (!emit(w + ("0" + s) + "fb" + std::string(k, '5') + "b")) return;
                    }
        }
    }
    void check(std::string_view c, Ctx& ctx) override
    {
        const auto ops = digits(c);
        Recorder out;
        d::HTML_Writer w(out, size_t(ops[0]));
        Model m { .width = size_t(ops[0]) };
        std::vector<d::Tag_Properties> stack;
        for (size_t i = 1; i < ops.size(); ++i) {
            ++ctx.transitions;
            const int op = ops[i];
            bool refused = false, must_refuse = op == 0 ? m.begun : !m.begun, stop = false;
            auto run = [&](auto&& f) {
                try {
                    f();
                } catch (const bm::Assertion_Error&) {
                    refused = true;
                }
            };
            auto attributes = [&](d::Tag_Properties p, bool empty, auto... kv) {
                const std::array<std::string_view, sizeof...(kv)> a { kv... };
                run([&] {
                    auto x = w.begin_tag_with_attributes(p);
                    for (size_t k = 0; k < a.size(); k += 2) x.write_attribute(a[k], a[k + 1]);
                    if (empty) x.end_empty();
                    else x.end();
                });
                if (must_refuse) return;
                m.open(p.id, p.style);
                for (size_t k = 0; k < a.size(); k += 2) m.attribute(a[k], a[k + 1]);
                if (empty) m.empty(" />", p.style);
                else m.opened(p.style), stack.push_back(p);
            };
            auto begin = [&](d::Tag_Properties p) {
                run([&] { w.begin_tag(p); });
                if (!must_refuse) m.open(p.id, p.style), m.opened(p.style), stack.push_back(p);
            };
            auto empty = [&](d::Tag_Properties p) {
                run([&] { w.write_empty_tag(p); });
                if (!must_refuse) m.open(p.id, p.style), m.empty("/>", p.style);
            };
            auto comment = [&](std::string_view s, Style style) {
                run([&] { w.write_comment_tag(s, style); });
                if (must_refuse) return;
                m.before(style);
                m.out.add(Type::tag_bracket, "<!--");
                m.out.add(Type::comment, s);
                m.out.add(Type::tag_bracket, "-->");
                m.after(style);
            };
            auto text = [&](std::string_view s, Style style) {
                size_t lines = 0;
                run([&] { lines = w.write_inner_text(s, style); });
                if (!must_refuse && m.inner(s, style) != lines) ctx.fail("write_inner_text returns " + std::to_string(lines));
            };
            auto gap = [&](bm::Local_Source_Span a, bm::Local_Source_Span b, Style style, std::string_view blank) {
                run([&] { w.write_source_gap(a, b, style); });
                if (!must_refuse) m.out.add(Type::whitespace, blank);
            };
            auto refuse = [&](auto&& f) {
                must_refuse = true;
                run(f);
            };
            switch (op) {
            case 0:
                run([&] { w.write_preamble(); });
                if (must_refuse) break;
                m.out.add(Type::tag_bracket, "<!");
                m.out.add(Type::preamble, "DOCTYPE html");
                m.out.add(Type::tag_bracket, ">");
                m.line();
                m.begun = true;
                break;
            case 1: begin({ "pre", Style::pre }); break;
            case 2: begin({ "b", Style::in_line }); break;
            case 3: begin({ "p", Style::flat }); break;
            case 4: begin({ "c-div", Style::block }); break;
            case 5: {
                must_refuse |= stack.empty();
                const auto p = stack.empty() ? d::Tag_Properties { "x", Style::in_line } : stack.back();
                run([&] { w.end_tag(p); });
                if (must_refuse) break;
                m.close(p.id, p.style);
                stack.pop_back();
                break;
            }
            case 6: empty({ "br", Style::in_line }); break;
            case 7: empty({ "hr", Style::flat }); break;
            case 8: empty({ "x", Style::block }); break;
            case 9: comment(" a < b ", Style::in_line); break;
            case 10: comment("->", Style::block); break;
            case 11: text("x<&>", Style::in_line); break;
            case 12: text("&amp;\"", Style::block); break;
            case 13: text("<a\n b>\n", Style::pre); break;
            case 14: text("a\nb", Style::in_line); break;
            case 15: text("a\nb", Style::block); break;
            case 16: text("a\n\n&", Style::flat); break;
            case 17: text("", Style::block); break;
            case 18:
                run([&] { w.write_whitespace(' ', 2); });
                if (!must_refuse) m.out.add(Type::whitespace, "  "), m.at_line_start = false;
                break;
            case 19: attributes({ "div", Style::block }, false, "k", "v", "q-r", "a b"); break;
            case 20: attributes({ "a", Style::in_line }, false, "href", "https://x/?a=1&b=\"c\"", "t", ""); break;
            case 21: attributes({ "li", Style::flat }, false, "k", "'"); break;
            case 22: attributes({ "link", Style::block }, true, "rel", "x", "href", "\"&\""); break;
            case 23: attributes({ "img", Style::in_line }, true); break;
            case 24: gap(span(0, 4, 4, 3), span(2, 3, 20, 1), Style::pre, "\n\n   "); break;
            case 25: gap(span(1, 4, 14, 3), span(1, 9, 19, 1), Style::pre, "  "); break;
            case 26: gap(span(1, 4, 14, 3), span(1, 7, 17, 1), Style::in_line, ""); break;
            case 27: gap(span(0, 4, 4, 3), span(2, 0, 20, 1), Style::in_line, " "); break;
            // Misuse.
            case 28: // tags while attributes are being written
                if (must_refuse) { refuse([&] { auto x = w.begin_tag_with_attributes({ "b", Style::in_line }); x.end(); }); break; }
                run([&] {
                    auto x = w.begin_tag_with_attributes({ "b", Style::block });
                    int n = 0;
                    auto expect = [&](auto&& f) {
                        try { f(); } catch (const bm::Assertion_Error&) { ++n; }
                    };
                    expect([&] { w.begin_tag({ "b", Style::in_line }); });
                    expect([&] { w.end_tag({ "b", Style::block }); });
                    expect([&] { w.write_inner_text("x", Style::in_line); });
                    expect([&] { w.write_comment_tag("x", Style::in_line); });
                    expect([&] { w.write_empty_tag({ "b", Style::in_line }); });
                    expect([&] { w.write_whitespace(' ', 1); });
                    expect([&] { w.write_preamble(); });
                    expect([&] { x.write_attribute("a b", "x"); });
                    expect([&] { x.write_attribute("", "x"); });
                    if (n != 9) ctx.fail("a misuse while attributes are written is not refused");
                    if (w.is_done()) ctx.fail("done in the middle of a tag");
                    x.end();
                    n = 0;
                    expect([&] { x.end(); });
                    expect([&] { x.end_empty(); });
                    expect([&] { x.write_attribute("a", "x"); });
                    if (n != 3) ctx.fail("using an attribute writer after its end is not refused");
                });
                m.open("b", Style::block);
                m.opened(Style::block);
                stack.push_back({ "b", Style::block });
                break;
            case 29: // forgotten end()
                if (!must_refuse) stop = true;
                refuse([&] { auto x = w.begin_tag_with_attributes({ "b", Style::in_line }); x.write_attribute("a"); });
                break;
            case 30: refuse([&] { w.begin_tag({ i % 2 ? "" : "a b", Style::block }); }); break;
            case 31: refuse([&] { w.write_comment_tag("a-->b", Style::in_line); }); break;
            case 32: refuse([&] { w.write_whitespace('x', 1); }); break;
            case 33: refuse([&] { w.write_empty_tag({ "<", Style::in_line }); }); break;
            }
            ctx.compared++;
            if (refused != must_refuse) return ctx.fail("operation " + std::to_string(i) + (refused ? " is refused" : " is not refused"));
            if (stop) return ctx.outcome("stopped");
            if (out.tokens.list != m.out.list) return ctx.fail("after operation " + std::to_string(i) + ": " + out.tokens.show() + " instead of " + m.out.show());
            if (w.is_done() != (m.begun && m.depth == 0)) return ctx.fail("after operation " + std::to_string(i) + ": is_done() is wrong");
        }
        ctx.outcome(w.is_done() ? "complete" : "incomplete");
    }
};
Register<Histories> r_histories;

// ---- C21: attribute values and identifiers -----------------------------------------------------

struct Values : Suite {
    const char* name() const override { return "writer_values"; }
    const char* bound(Tier t) const override { return t == Tier::quick ? "all strings of <=3 of 22 characters and all single bytes as attribute value, key, tag name, text and comment; long ones of n repetitions of 16 pieces for every n in 4..40, 63..65, 127..129, 255..257, 1023..1025, 4095..4097, 65535..65537" : "the same with <=4 of 22 characters"; }
    void enumerate(Tier t, const Emit& emit) override
    {
        if (!emit("")) return;
        for (int i = 0; i < 256; ++i) if (!emit(std::string(1, char(i))) || !emit("a" + std::string(1, char(i)))) return;
        for (size_t n = 2; n <= (t == Tier::quick ? 3u : 4u); ++n) if (!all_sequences(letters("aZ0-_<>&\"' \n\t=/`:;.!#x"), n, "", emit)) return;
        std::vector<size_t> ns;
        for (size_t n = 4; n <= 40; ++n) ns.push_back(n);
        for (size_t k : { 64, 128, 256, 1024, 4096, 65536 }) for (size_t d : { 0, 1, 2 }) ns.push_back(k - 1 + d);
        for (size_t n : ns)
            for (auto piece : { "a", "0", "-", "<", "&", ">", " ", "\n", "\"", "'", "=", "a ", "x\n", "a<b", "--", "\xff" }) {
                std::string r;
                for (size_t i = 0; i < n; ++i) r += piece;
                if (!emit(r) || !emit("a" + r) || !emit(r + "b") || !emit("b" + r + ">")) return;
            }
    }
    void check(std::string_view c, Ctx& ctx) override
    {
        ++ctx.transitions;
        Recorder out;
        d::HTML_Writer w(out, 1);
        Model m { .width = 1 };
        w.write_preamble();
        { auto x = w.begin_tag_with_attributes({ "a", Style::in_line }); x.write_attribute("k", c); x.end(); }
        const size_t lines = w.write_inner_text(c, Style::in_line);
        w.write_inner_text(c, Style::pre);
        m.out.add(Type::tag_bracket, "<!");
        m.out.add(Type::preamble, "DOCTYPE html");
        m.out.add(Type::tag_bracket, ">");
        m.line();
        m.open("a", Style::in_line);
        m.attribute("k", c);
        m.opened(Style::in_line);
        if (m.inner(c, Style::in_line) != lines) ctx.fail("number of lines is " + std::to_string(lines));
        m.inner(c, Style::pre);
        auto valid = [&] {
            if (c.empty()) return false;
            for (size_t i = 0; i < c.size(); ++i)
                if (!(isalpha((unsigned char)c[i]) && (unsigned char)c[i] < 128) && c[i] != '_' && c[i] != '-' && !(i && c[i] >= '0' && c[i] <= '9')) return false;
            return true;
        };
        bool ok = true;
        try { w.begin_tag({ c, Style::in_line }); } catch (const bm::Assertion_Error&) { ok = false; }
        if (ok != valid()) return ctx.fail(ok ? "bad tag name is accepted" : "tag name is refused");
        if (ok) m.open(c, Style::in_line), m.opened(Style::in_line);
        ok = true;
        try { w.write_comment_tag(c, Style::in_line); } catch (const bm::Assertion_Error&) { ok = false; }
        if (ok != (c.find("-->") == c.npos)) return ctx.fail(ok ? "bad comment is accepted" : "comment is refused");
        if (ok) {
            m.before(Style::in_line);
            m.out.add(Type::tag_bracket, "<!--");
            m.out.add(Type::comment, c);
            m.out.add(Type::tag_bracket, "-->");
        }
        {
            auto x = w.begin_tag_with_attributes({ "x", Style::in_line });
            ok = true;
            try { x.write_attribute(c, "1"); } catch (const bm::Assertion_Error&) { ok = false; }
            x.end();
        }
        if (ok != valid()) return ctx.fail(ok ? "bad attribute key is accepted" : "attribute key is refused");
        m.open("x", Style::in_line);
        if (ok) m.attribute(c, "1");
        m.opened(Style::in_line);
        ctx.compared++;
        if (out.tokens.list != m.out.list) ctx.fail(out.tokens.show() + " instead of " + m.out.show());
    }
};
Register<Values> r_values;

struct Gaps : Suite {
    const char* name() const override { return "writer_gaps"; }
    const char* bound(Tier) const override { return "all pairs of spans in lines 0 to 4, columns 0 to 5, with lengths 0 to 3 in order, in all styles; the same with 10 greater numbers up to 65537"; }
    void enumerate(Tier, const Emit& emit) override
    {
        for (char l = '0'; l < '5'; ++l)
            for (char k = '0'; k < '6'; ++k)
                for (char n = '0'; n < '4'; ++n)
                    for (char m = l; m < '5'; ++m)
                        for (char j = m == l ? char(k + (n - '0')) : '0'; j < '9'; ++j)
                            for (char s = '0'; s < '4'; ++s)
                                if (!emit(std::string { l, k, n, m, j, s })) return;
        const std::string_view some = "01abcdefghij";
        for (char l : some)
            for (char k : some)
                for (char n : std::string_view("02af"))
                    for (char m : some)
                        for (char j : some)
                            if (m > l || (m == l && value(j) >= value(k) + value(n)))
                                for (char s = '0'; s < '4'; ++s)
                                    if (!emit(std::string { l, k, n, m, j, s })) return;
    }
    static size_t value(char c)
    {
        constexpr size_t great[] = { 64, 127, 128, 255, 256, 257, 1000, 65535, 65536, 65537 };
        return c <= '9' ? size_t(c - '0') : great[c - 'a'];
    }
    void check(std::string_view c, Ctx& ctx) override
    {
        auto v = [&](size_t i) { return value(c[i]); };
        ++ctx.transitions; ++ctx.compared;
        const auto style = Style(v(5));
        const auto a = span(v(0), v(1), 200000 * v(0) + v(1), v(2)), b = span(v(3), v(4), 200000 * v(3) + v(4), 1);
        Recorder out;
        d::HTML_Writer w(out, 2);
        w.write_preamble();
        const auto before = out.tokens.text();
        w.write_source_gap(a, b, style);
        const std::string written = out.tokens.text().substr(before.size());
        std::string want;
        if (style == Style::pre) want = v(0) == v(3) ? std::string(v(4) - v(1) - v(2), ' ') : std::string(v(3) - v(0), '\n') + std::string(v(4), ' ');
        else if (a.end() != b.begin) want = " ";
        if (written != want) ctx.fail("writes '" + escape(written) + "' instead of '" + escape(want) + "'");
    }
};
Register<Gaps> r_gaps;

// ---- C21: token consumers ----------------------------------------------------------------------

std::string color_codes(std::string_view s)
{
    std::string r;
    for (size_t i = 0; i < s.size(); ++i)
        if (s[i] == '\x1b') while (i < s.size() && s[i] != 'm') r += s[i++];
    return r;
}

struct Consumers : Suite {
    const char* name() const override { return "consumers"; }
    const char* bound(Tier t) const override { return t == Tier::quick ? "all histories of <=3 of 6 writes (and long ones) with each of 11 token types on streams with 4 formats, and on failing streams" : "all histories of <=4 of 6 writes with each of 11 token types on streams with 4 formats, and on failing streams"; }
    void enumerate(Tier t, const Emit& emit) override
    {
        Strings ops;
        for (char k : std::string_view("abcdef")) for (int i = 0; i < 11; ++i) ops.push_back({ k, char('0' + i) });
        for (char f : std::string_view("0123"))
            for (size_t n = 1; n <= (t == Tier::quick ? (f == '0' ? 3u : 2u) : (f == '0' ? 4u : 3u)); ++n)
                if (!all_sequences(ops, n, "", [&](std::string_view s) { return emit(f + std::string(s)); })) return;
        for (size_t n = 1; n <= 2; ++n) if (!all_sequences(ops, n, "", [&](std::string_view s) { return emit("4" + std::string(s)); })) return;
        for (char f : std::string_view("01234"))
            for (auto k : { "g", "h", "i", "ag", "hd", "gi" })
                for (char i = '0'; i < char('0' + 11); ++i) {
                    std::string r(1, f);
                    for (const char* x = k; *x; ++x) r += { *x, i };
                    if (!emit(r)) return;
                }
    }
    static bool write(d::HTML_Token_Consumer& c, char op, Type t)
    {
        switch (op) {
        case 'a': return c.write('<', t);
        case 'b': return c.write(' ', 3, t);
        case 'c': return c.write('\n', 0, t);
        case 'd': return c.write(std::string_view("text\n"), t);
        case 'e': return c.write(std::string_view(""), t);
        case 'g': return c.write(' ', 300, t);
        case 'h': return c.write('\n', 65537, t);
        case 'i': return c.write(std::string(70000, 'x'), t);
        default: return c.write(std::string_view("\0x", 2), t);
        }
    }
    void check(std::string_view c, Ctx& ctx) override
    {
        std::ostringstream a, b;
        for (auto* s : { &a, &b })
            switch (c[0]) {
            case '1': s->fill('*'); break;
            case '2': s->setf(std::ios::left, std::ios::adjustfield); break;
            case '3': s->fill('0'); s->setf(std::ios::internal, std::ios::adjustfield); break;
            case '4': s->setstate(std::ios::badbit); break;
            }
        bm::Simple_HTML_Consumer simple { a };
        bm::Colored_HTML_Consumer colored { b };
        Recorder r;
        for (size_t i = 1; i < c.size(); i += 2) {
            ++ctx.transitions;
            const auto t = Type(c[i + 1] - '0');
            const bool x = write(simple, c[i], t), y = write(colored, c[i], t);
            if (x != (c[0] != '4') || y != x) return ctx.fail("a consumer reports the wrong state of its stream");
            write(r, c[i], t);
        }
        ctx.compared++;
        const std::string wanted = c[0] == '4' ? "" : r.tokens.text();
        if (a.str() != wanted) return ctx.fail("the simple consumer writes '" + escape(a.str()) + "'");
        if (strip_ansi(b.str()) != wanted) return ctx.fail("the colored consumer writes '" + escape(b.str()) + "'");
        if (c[0] == '1' && (a.fill() != '*' || b.fill() != '*')) ctx.fail("the fill character of the stream is changed");
    }
};
Register<Consumers> r_consumers;

// ---- C25: code strings ---------------------------------------------------------------------------

struct Code_Strings : Suite {
    const char* name() const override { return "code_strings"; }
    const char* bound(Tier t) const override { return t == Tier::quick ? "all histories of <=5 of 13 operations (appending with and without type, taking back, clearing) with complete iteration and printing after each; histories of <=4 of 7 operations with pieces of 300, 65536 and 70000 characters; two operations repeated in turn up to 258 times" : "all histories of <=6 of 13 operations with complete iteration and printing after each"; }
    void enumerate(Tier t, const Emit& emit) override
    {
        if (!emit("")) return;
        for (size_t n = 1; n <= (t == Tier::quick ? 5u : 6u); ++n) if (!all_sequences(letters("0123456789abc"), n, "", emit)) return;
        for (size_t n = 1; n <= 4; ++n) if (!all_sequences(letters("059adef"), n, "", emit)) return;
        // long ones: two operations in turn, a mark in the middle
        for (size_t n : { 7, 8, 9, 10, 15, 16, 17, 18, 31, 32, 33, 34, 63, 64, 65, 66, 127, 128, 129, 130, 255, 256, 257, 258 })
            for (char a : std::string_view("0123456789"))
                for (char b : std::string_view("0123456789a")) {
                    if (n > 66 && a != '5' && b != '5') continue;
                    std::string x;
                    for (size_t i = 0; i < n; ++i) x += i % 2 ? b : a;
                    if (!emit(x) || !emit(x.substr(0, n / 2) + "9" + x.substr(n / 2) + "a56")) return;
                }
    }
    void check(std::string_view c, Ctx& ctx) override
    {
        struct S { size_t begin, length; d::Code_Span_Type type; };
        struct Snapshot { std::string text; std::vector<S> spans; };
        std::pmr::unsynchronized_pool_resource memory;
        d::Code_String s { &memory };
        Snapshot m;
        std::vector<std::pair<d::Code_String::Length, Snapshot>> marks;
        auto verify = [&]() -> std::string {
            if (s.get_text() != m.text) return "text is '" + escape(s.get_text()) + "'";
            const auto l = s.get_length();
            if (l.text_length != m.text.size() || s.get_text_length() != m.text.size() || l.span_count != m.spans.size()) return "length is wrong";
            size_t i = 0;
            for (auto x : s) {
                if (i >= m.spans.size() || x.begin != m.spans[i].begin || x.length != m.spans[i].length || x.type != m.spans[i].type) return "span " + std::to_string(i) + " is wrong";
                ++i;
            }
            if (i != m.spans.size()) return "spans are missing";
            if (c.size() < 7 || m.text.size() % 16 == 0)
                for (size_t a = 0; a <= i; ++a)
                    for (size_t b = a; b <= i; ++b) {
                        const auto x = s.begin() + a, y = s.end() - (i - b);
                        if ((x < y) != (a < b) || (x <= y) != true || (x > y) || (y < x) || (y > x) != (a < b) || (x >= y) != (a == b) || (x == y) != (a == b) || (x != y) != (a != b) || y - x != d::Code_String_Iterator::difference_type(b - a) || x - y != -d::Code_String_Iterator::difference_type(b - a)) return "comparison of iterators";
                        if (b < i && x[b - a].begin != m.spans[b].begin) return "iterator subscript";
                    }
            if (s.end() - s.begin() != d::Code_String_Iterator::difference_type(i) || s.cend() - s.cbegin() != s.end() - s.begin()) return "distance of iterators";
            auto it = s.end();
            while (i) {
                --i;
                --it;
                if ((*it).begin != m.spans[i].begin || it != s.begin() + i || s.begin()[i].length != m.spans[i].length || (it == s.end()) || !(it < s.end()) || it - s.begin() != d::Code_String_Iterator::difference_type(i)) return "iterating backwards";
                auto k = it;
                if (k++ != it || k != it + 1 || 1 + it != k || k-- != it + 1 || k != it) return "iterator arithmetic";
                if ((k += 1) != it + 1 || (k -= 1) != it || (it + 1) - 1 != it) return "iterator arithmetic";
            }
            std::ostringstream plain, colored;
            bm::print_code_string(plain, s, false);
            bm::print_code_string(colored, s, true);
            if (plain.str() != m.text) return "printed as '" + escape(plain.str()) + "'";
            if (strip_ansi(colored.str()) != m.text) return "printed with colors as '" + escape(colored.str()) + "'";
            // Every typed piece is set in its color, and nothing else.
            std::string text = colored.str(), pieces;
            size_t n = 0;
            for (size_t p = 0; (p = text.find('\x1b', p)) != text.npos; ++p) ++n;
            if (n != 2 * m.spans.size()) return "number of color changes is " + std::to_string(n);
            size_t p = 0, at = 0;
            for (auto& x : m.spans) {
                while (at < x.begin) if (text[p++] != m.text[at++]) return "text between pieces";
                if (text[p] != '\x1b') return "piece without color";
                p = text.find('m', p) + 1;
                p += x.length;
                at += x.length;
                if (text.compare(p, bm::ansi::reset.size(), bm::ansi::reset)) return "piece does not end the color";
                p += bm::ansi::reset.size();
            }
            return "";
        };
        for (size_t i = 0;; ++i) {
            ctx.compared++;
            if (auto e = verify(); !e.empty()) return ctx.fail("after operation " + std::to_string(i) + ": " + e);
            if (i == c.size()) return;
            ++ctx.transitions;
            using enum d::Code_Span_Type;
            auto typed = [&](std::string_view t, d::Code_Span_Type k) { m.spans.push_back({ m.text.size(), t.size(), k }); m.text += t; };
            switch (digits(c.substr(i, 1))[0]) {
            case 0: s.append(" "); m.text += " "; break;
            case 1: s.append("ab\n"); m.text += "ab\n"; break;
            case 2: s.append('x'); m.text += 'x'; break;
            case 3: s.append(3, '-'); m.text += "---"; break;
            case 4: s.append(""); break;
            case 5: s.append("if", keyword); typed("if", keyword); break;
            case 6: s.append("x", identifier); typed("x", identifier); break;
            case 7: s.append(';', punctuation); typed(";", punctuation); break;
            case 8: s.append("0xff", number); typed("0xff", number); break;
            case 9: marks.emplace_back(s.get_length(), m); break;
            case 10: // take back to the last mark
                if (!marks.empty()) {
                    s.resize(marks.back().first);
                    m = marks.back().second;
                    marks.pop_back();
                }
                break;
            case 13: case 15: { // long pieces
                const std::string t(digits(c.substr(i, 1))[0] == 13 ? 300 : 65536, 'y');
                s.append(t, identifier);
                typed(t, identifier);
                break;
            }
            case 14: s.append(70000, ' '); m.text += std::string(70000, ' '); break;
            case 11: s.resize({ 0, 0 }); m = {}; marks.clear(); break;
            case 12: {
                bool refused = false;
                try { s.append("", keyword); } catch (const bm::Assertion_Error&) { refused = true; }
                if (!refused) return ctx.fail("an empty piece is accepted");
            }
            }
        }
    }
};
Register<Code_Strings> r_code_strings;

struct Languages : Suite {
    const char* name() const override { return "code_languages"; }
    const char* bound(Tier) const override { return "all names of <=3 of 20 characters and all documented names with all single-character edits"; }
    static const std::vector<std::pair<std::string, d::Code_Language>>& table()
    {
        using enum d::Code_Language;
        static const std::vector<std::pair<std::string, d::Code_Language>> t { { "bms", bms }, { "BMS", bms }, { "c", c }, { "C", c }, { "c++", cpp }, { "C++", cpp }, { "cpp", cpp }, { "cxx", cpp }, { "rs", rust }, { "rust", rust }, { "Rust", rust },
            { "java", java }, { "Java", java }, { "kotlin", kotlin }, { "Kotlin", kotlin }, { "kt", kotlin }, { "js", javascript }, { "JS", javascript }, { "javascript", javascript }, { "JavaScript", javascript }, { "ts", typescript }, { "TS", typescript }, { "typescript", typescript }, { "TypeScript", typescript } };
        return t;
    }
    void enumerate(Tier, const Emit& emit) override
    {
        if (!emit("")) return;
        const std::string chars = "bmsBMScC+pxrtkjJSTu ";
        for (size_t n = 1; n <= 3; ++n) if (!all_sequences(letters(chars), n, "", emit)) return;
        for (auto& [n, l] : table()) {
            if (!emit(n)) return;
            for (size_t i = 0; i <= n.size(); ++i) {
                if (i < n.size() && !emit(n.substr(0, i) + n.substr(i + 1))) return;
                for (char k : chars) {
                    if (!emit(n.substr(0, i) + k + n.substr(i))) return;
                    if (i < n.size() && !emit(n.substr(0, i) + k + n.substr(i + 1))) return;
                }
            }
        }
    }
    void check(std::string_view c, Ctx& ctx) override
    {
        ++ctx.transitions;
        std::optional<d::Code_Language> wanted;
        for (auto& [n, l] : table()) if (n == c) wanted = l;
        ctx.compared++;
        if (bm::code_language_by_name(c) != wanted) ctx.fail("the language of this name is wrong");
        ctx.outcome(wanted ? "language" : "no language");
    }
};
Register<Languages> r_languages;
}
