// C18..C20, C22, C23: BMD documents, decided against the reference of ref_bmd.hpp.
#include <algorithm>
#include <memory_resource>
#include <sstream>

#include "bms_suite.hpp"
#include "bms_total.hpp"
#include "ref_bmd.hpp"
#include "bmd/html/bms_to_html.hpp"
#include "bmd/html/html_writer.hpp"
#include "bmd/html/token_consumer.hpp"
#include "bmd/parsing/ast.hpp"
#include "bmd/parsing/grammar.hpp"

using namespace verif;
namespace d = bm::bmd;
namespace {

enum Mode { mode_parse, mode_html, mode_total };

struct Collector final : d::HTML_Token_Consumer {
    std::string text;
    bool write(char c, d::HTML_Token_Type) final { text += c; return true; }
    bool write(char c, bm::Size n, d::HTML_Token_Type) final { text.append(n, c); return true; }
    bool write(std::string_view s, d::HTML_Token_Type) final { text += s; return true; }
};

struct Mismatch { std::string why; };

void compare(std::string_view s, const refbmd::Node& e, const d::ast::Some_Node* n, bool paragraph, Ctx& ctx)
{
    auto where = [&] { return " at " + std::to_string(e.begin) + ".." + std::to_string(e.end); };
    ctx.compared++;
    if (!n) throw Mismatch { "missing node" + where() };
    const auto span = get_source_span(*n);
    const auto lc = position_of(s, span.begin);
    if (span.line != lc.line || span.column != lc.column) throw Mismatch { "line or column of the node at byte " + std::to_string(span.begin) + " are wrong" };
    if (span.end() > s.size()) throw Mismatch { "node ends after the document" };
    if ((e.what != refbmd::Node::list || paragraph) && (span.begin != e.begin || span.end() != e.end))
        throw Mismatch { "node spans " + std::to_string(span.begin) + ".." + std::to_string(span.end()) + " instead of" + where() };
    switch (e.what) {
    case refbmd::Node::text: {
        auto* t = get_if<d::ast::Text>(n);
        if (!t || t->get_text() != s.substr(e.begin, e.end - e.begin)) throw Mismatch { "no such text" + where() };
        return;
    }
    case refbmd::Node::list: {
        auto* l = get_if<d::ast::List>(n);
        if (!l) throw Mismatch { "no list" + where() };
        if (l->get_children().size() != e.children.size() || l->empty() != e.children.empty())
            throw Mismatch { "list has " + std::to_string(l->get_children().size()) + " elements instead of " + std::to_string(e.children.size()) + where() };
        for (size_t i = 0; i < e.children.size(); ++i) {
            compare(s, e.children[i], l->get_children()[i], e.children[i].what == refbmd::Node::list, ctx);
            const auto c = get_source_span(*l->get_children()[i]);
            if (c.begin < span.begin || c.end() > span.end()) throw Mismatch { "element outside of its list" + where() };
        }
        return;
    }
    case refbmd::Node::directive: {
        auto* x = get_if<d::ast::Directive>(n);
        if (!x || x->get_type() != e.kind->type || x->get_identifier() != e.kind->id) throw Mismatch { "no such directive" + where() };
        if (x->m_arguments.size() != e.arguments.size()) throw Mismatch { "another number of arguments" + where() };
        for (auto& a : e.arguments) {
            auto it = x->m_arguments.find(a.key);
            if (it == x->m_arguments.end()) throw Mismatch { "argument is missing" + where() };
            auto* number = get_if<d::ast::Number>(&it->second);
            auto* id = get_if<d::ast::Identifier>(&it->second);
            if (a.number ? !number || std::to_string(number->get_value()) != a.value : !id || id->get_value() != a.value) throw Mismatch { "argument has another value" + where() };
            const auto v = get_source_span(it->second);
            const auto p = position_of(s, v.begin);
            if (number) {
                const auto digits = s.substr(v.begin, v.length);
                auto alnum = [&](size_t i) { return i < s.size() && (std::isalnum((unsigned char) s[i]) || s[i] == '-'); };
                bool ok = !digits.empty() && !alnum(v.end()) && v.begin && !alnum(v.begin - 1);
                for (size_t i = 0; i < digits.size(); ++i) ok &= alnum(v.begin + i);
                if (!ok) throw Mismatch { "number's position" + where() };
            }
            if (v.line != p.line || v.column != p.column || v.begin < e.begin || v.end() > e.end || (id && s.substr(v.begin, v.length) != a.value)) throw Mismatch { "argument's position" + where() };
        }
        if ((x->get_block() != nullptr) != !e.children.empty()) throw Mismatch { "directive's block" + where() };
        if (!e.children.empty()) {
            const auto b = get_source_span(*x->get_block());
            if (b.begin < e.begin || b.end() > e.end) throw Mismatch { "block outside of its directive" + where() };
            compare(s, e.children[0], x->get_block(), false, ctx);
        }
        return;
    }
    }
}

// What a dump of the (already compared) tree has to say.
std::string cut_off(std::string_view t, int max)
{
    std::string r;
    int shown = 0;
    for (char c : t) {
        if (shown >= max) return r + " ...";
        const bool control = c == '\r' || c == '\t' || c == '\n';
        r += control ? std::string("\\") + (c == '\r' ? 'r' : c == '\t' ? 't' : 'n') : std::string(1, c);
        shown += control ? 2 : 1;
    }
    return r;
}
void expected_dump(std::string& out, std::string_view s, d::ast::Some_Node* n, int level, int width, int max)
{
    const std::string indent(size_t(level * width), ' ');
    if (!n) { out += indent + "null\n"; return; }
    const auto span = get_source_span(*n);
    auto* directive = get_if<d::ast::Directive>(n);
    out += indent + (directive ? "\\" + std::string(directive->get_identifier()) : std::string(get_node_name(*n))) + "(" + cut_off(s.substr(span.begin, span.length), max) + ")\n";
    if (directive)
        for (auto& [k, v] : directive->m_arguments) {
            const auto vs = get_source_span(v);
            out += indent + std::string(k) + ": " + std::string(s.substr(vs.begin, vs.length)) + "\n";
        }
    for (auto* c : get_children(*n)) expected_dump(out, s, c, level + 1, width, max);
}

size_t count_lines(const std::vector<refbmd::Node>& nodes, bool directive_child = false)
{
    size_t r = 0;
    for (auto& n : nodes) r += 1 + n.arguments.size() + count_lines(n.children) + (n.what == refbmd::Node::directive && n.children.empty());
    return r;
}

void render(std::string_view s, Ctx& ctx, std::optional<size_t> begin, auto&& print)
{
    std::ostringstream a, b;
    print(a, false);
    print(b, true);
    bool internal = false;
    check_rendering(s, a.str(), b.str(), begin, ctx, internal);
    if (internal) ctx.fail("an error of the document is reported as an internal error: " + a.str());
}

// A word which the message for an error cannot do without.
void check_message(const std::string& rendered, std::string_view word, Ctx& ctx)
{
    if (g_property != "C28") return;
    std::string first;
    for (char ch : rendered.substr(0, rendered.find('\n'))) first += ch >= 'A' && ch <= 'Z' ? char(ch | 32) : ch;
    if (first.find(word) == first.npos) ctx.fail("the message does not speak of '" + std::string(word) + "': " + rendered);
}
std::string_view key_word(d::Parse_Error_Code c)
{
    using enum d::Parse_Error_Code;
    switch (c) {
    case unexpected_character: return "unexpected";
    case unexpected_eof: return "end";
    case unterminated_comment: return "comment";
    case invalid_integer_literal: return "literal";
    case integer_suffix: return "suffix";
    case invalid_directive: return "directive";
    case duplicate_argument: return "argument";
    case directive_must_be_empty: return "empty";
    case paragraph_break_in_span: return "paragraph";
    case directive_in_text_span: return "text";
    case text_in_directive_list: return "directive";
    case directive_not_allowed: return "not allowed";
    }
    return "";
}
std::string_view key_word(d::Document_Error_Code c)
{
    using enum d::Document_Error_Code;
    switch (c) {
    case directive_not_allowed: return "not allowed";
    case meta_not_at_start_of_file: return "beginning";
    case duplicate_meta_entry: return "meta";
    case invalid_language: return "language";
    case invalid_architecture: return "architecture";
    case number_attribute_not_allowed: return "numeric";
    default: return "";
    }
}

void check_document(std::string_view source, Ctx& ctx, Mode mode)
{
    std::unique_ptr<char[]> exact(new char[source.size()]);
    std::memcpy(exact.get(), source.data(), source.size());
    const std::string_view s(exact.get(), source.size());
    std::pmr::unsynchronized_pool_resource memory;
    ctx.transitions++;

    std::vector<refbmd::Node> expected;
    std::optional<refbmd::Error> error;
    try {
        expected = refbmd::parse(s);
    } catch (const refbmd::Error& e) {
        error = e;
    }
    auto r = d::parse(s, &memory);
    if (!r) {
        ctx.outcome("rejected");
        ctx.compared++;
        auto& e = r.error();
        if (mode == mode_html && !error) ctx.fail("a correct document is rejected with error " + std::to_string(int(e.code)) + " at " + std::to_string(e.pos.begin));
        if (mode != mode_html) {
            if (!error) return ctx.fail("a correct document is rejected with error " + std::to_string(int(e.code)) + " at " + std::to_string(e.pos.begin));
            if (e.code != error->code) return ctx.fail("rejected with error " + std::to_string(int(e.code)) + " instead of " + std::to_string(int(error->code)));
            const auto lc = position_of(s, e.pos.begin);
            if (e.pos.line != lc.line || e.pos.column != lc.column) return ctx.fail("line or column of the error are wrong");
            if (e.pos.begin < error->low || e.pos.begin > error->high) return ctx.fail("error at byte " + std::to_string(e.pos.begin) + " instead of " + std::to_string(error->low) + ".." + std::to_string(error->high));
            render(s, ctx, e.pos.begin, [&](auto& o, bool c) { bm::print_parse_error(o, "case.bms", s, e, c); });
            std::ostringstream o;
            bm::print_parse_error(o, "", s, e, false);
            check_message(o.str(), key_word(e.code), ctx);
        }
        return;
    }
    if (error) {
        if (mode == mode_parse) ctx.fail("a document with error " + std::to_string(int(error->code)) + " at " + std::to_string(error->low) + " is accepted");
        if (mode != mode_total) return;
    }
    ctx.outcome("parsed");
    if (mode == mode_parse) {
        if (r->root_node == nullptr) {
            if (!expected.empty()) ctx.fail("the document is empty");
        }
        else if (expected.empty()) ctx.fail("the document is not empty");
        else try {
            compare(s, expected[0], r->root_node, false, ctx);
        } catch (const Mismatch& m) {
            ctx.fail(m.why);
        }
    }
    if (mode != mode_html) {
        std::ostringstream plain, colored;
        bm::print_ast(plain, *r, { .indent_width = 2, .max_node_text_length = 30, .colors = false });
        bm::print_ast(colored, *r, { .indent_width = 2, .max_node_text_length = 30, .colors = true });
        if (s.find('\x1b') == s.npos && strip_ansi(colored.str()) != plain.str()) ctx.fail("dumps with and without colors differ");
        for (auto [width, max] : { std::pair { 2, 30 }, { 0, 0 }, { 3, 7 } }) {
            std::ostringstream dump;
            bm::print_ast(dump, *r, { .indent_width = width, .max_node_text_length = max, .colors = false });
            std::string wanted;
            expected_dump(wanted, s, r->root_node, 0, width, max);
            if (dump.str() != wanted) ctx.fail("the dump is\n" + dump.str() + "instead of\n" + wanted);
        }
        const size_t lines = expected.empty() ? 1 : count_lines(expected);
        const std::string text = plain.str();
        if (!error && size_t(std::count(text.begin(), text.end(), '\n')) != lines) ctx.fail("the dump has another number of lines than " + std::to_string(lines) + ": " + plain.str());
    }
    if (mode == mode_parse) return;

    std::optional<refbmd::Doc_Error> doc_error;
    const std::vector<std::string> sheets { "/a.css", "b" };
    const std::vector<std::string_view> views(sheets.begin(), sheets.end());
    Collector out;
    auto h = d::doc_to_html(out, *r, { .indent_width = 2, .stylesheets = views }, &memory);
    refbmd::Events events;
    try {
        if (!error) events = refbmd::convert(s, expected, sheets);
    } catch (const refbmd::Doc_Error& e) {
        doc_error = e;
    }
    ctx.compared++;
    if (!h) {
        ctx.outcome("not converted");
        auto& e = h.error();
        render(s, ctx, e.pos.begin, [&](auto& o, bool c) { bm::print_document_error(o, "case.bms", s, e, c); });
        std::ostringstream o;
        bm::print_document_error(o, "", s, e, false);
        check_message(o.str(), key_word(e.code), ctx);
        if (error) return;
        if (!doc_error) return ctx.fail("a correct document is not converted: error " + std::to_string(int(e.code)));
        if (doc_error->code != e.code) return ctx.fail("conversion fails with error " + std::to_string(int(e.code)) + " instead of " + std::to_string(int(doc_error->code)));
        if (e.pos.begin < doc_error->low || e.pos.begin >= doc_error->high) return ctx.fail("error at byte " + std::to_string(e.pos.begin) + " instead of " + std::to_string(doc_error->low) + ".." + std::to_string(doc_error->high));
        const auto lc = position_of(s, e.pos.begin);
        if (e.pos.line != lc.line || e.pos.column != lc.column) return ctx.fail("line or column of the error are wrong");
        return;
    }
    if (error) return;
    if (doc_error) return ctx.fail("a document with error " + std::to_string(int(doc_error->code)) + " is converted");
    ctx.outcome("converted");
    try {
        const auto actual = refbmd::normalize(refbmd::read_html(out.text)), wanted = refbmd::normalize(events);
        if (actual != wanted) ctx.fail("HTML stands for " + to_string(actual) + "\ninstead of " + to_string(wanted));
    } catch (const refbmd::Bad_Html& e) {
        ctx.fail("bad HTML: " + e.why + " in " + out.text);
    }
}

// ---- spaces ----------------------------------------------------------------------------------

struct Space {
    const char* id;
    const char* bound_small;
    const char* bound_quick;
    const char* bound_thorough;
    void (*enumerate)(int depth, const Emit&); // 0: small, 1: quick, 2: thorough
};

const Space spaces[] = {
    { "strings", "all sequences of <=3 of 32 lexemes; all single bytes in 6 contexts",
      "all sequences of <=4 of 32 lexemes; all single bytes and pairs of 30 characters in 6 contexts", "all sequences of <=5 of 32 lexemes; all single bytes and triples of 30 characters in 6 contexts",
      [](int depth, const Emit& emit) {
          if (!emit("")) return;
          const Strings context { "$x", "\\b{$x}", "\\title{$x}", "\\c[lang=text]{$x}", "\\b[$x]{}", "\\meta{\\title{$x}}" };
          for (auto& k : context)
              for (int c = 0; c < 256; ++c)
                  if (!emit(fill(k, { { 'x', std::string(1, char(c)) } })) || !emit(fill(k, { { 'x', "a" + std::string(1, char(c)) + "b" } }))) return;
          Strings chars;
          for (char c : std::string_view("ab1 \n\t\r\\{}[]/*,=<>&\"'#;:.0x_\v\0", 31)) chars.push_back({ c });
          for (size_t n = 2; n <= size_t(1 + depth); ++n)
              for (auto& k : context) if (!all_sequences(chars, n, "", [&](std::string_view x) { return emit(fill(k, { { 'x', std::string(x) } })); })) return;
          const Strings lexemes { "a", " ", "\n", "\\", "{", "}", "\\b", "\\br", "\\hr", "\\c", "\\h1", "\\ul", "\\item", "\\meta", "\\title", "\\note", "\\codeblock", "\\instruction", "\\zz", "[", "]", "=", "x=1", ",", "/*", "*/", "//", "/", "&", "\t", "\"", "\r" };
          for (size_t n = 1; n <= size_t(3 + depth); ++n) if (!all_sequences(lexemes, n, "", emit)) return;
      } },
    { "spans", "all sequences of <=2 of 20 elements joined by all of 10 blanks (pairs: 20) in 7 contexts",
      "all sequences of <=3 of 20 elements joined by all of 10 blanks (pairs: 20) in 7 contexts", "all sequences of <=4 of 14 elements and <=3 of 20 joined by all of 10 blanks (pairs: 20) in 7 contexts",
      [](int depth, const Emit& emit) {
          const Strings items { "a", "\\b{x}", "\\i", "\\br", "\\c{x + 1}", "<&>", "\\{x\\}", "\\sup{\\sub{y}}", "\\h2{T}", "\\hr", "\\codeblock{\nx;\n}", "\\ul{\\item{1} \\item{2}}", "\\note{n}", "\\instruction{andn}",
              "\\q{}", "two words", "\\kbd[a=b]{k}", "one\nline", "\\\\", "\\br{}" };
          const Strings blanks { "", " ", "\n", "\n\n", "/* c */", " // c\n", "\n \n", "\t", "\n// c\n", " /**/ ", "\n/* c */\n", "\n/* \n\n */", "/*c*/\n\n", "// c\n// d\n", "// c\n\n", "\n\r\n", " \n\t// c\n ", "/***/\n", "/* // */\n", "// /*\n" };
          const Strings contexts { "$x", "\n $x \n", "\\b{$x}", "\\b{ $x }", "\\note{$x}", "\\note{\n\n$x\n\n}", "\\ol{\\item{$x}}" };
          for (auto& k : contexts)
              for (size_t n = 1; n <= size_t(2 + depth); ++n) {
                  const size_t count = n == 4 ? 14 : items.size();
                  std::function<bool(std::string, size_t)> go = [&](std::string text, size_t left) {
                      if (!left) return emit(fill(k, { { 'x', text } }));
                      for (size_t i = 0; i < count; ++i) {
                          if (text.empty()) {
                              if (!go(items[i], left - 1)) return false;
                          }
                          else for (size_t b = 0; b < (n < 3 ? blanks.size() : 10); ++b)
                              if (!go(text + blanks[b] + items[i], left - 1)) return false;
                      }
                      return true;
                  };
                  if (!go("", n)) return;
              }
      } },
    { "directives", "every directive (and 12 unknown ones) with each of 14 blocks and 4 argument lists, alone and in each of 14 contexts; all nestings of two directives",
      "every directive (and 12 unknown ones) with each of 14 blocks and 4 argument lists, alone and in each of 14 contexts; all nestings of three directives", "the same; all nestings of four directives",
      [](int depth, const Emit& emit) {
          Strings names;
          for (auto& k : refbmd::kinds) names.push_back(k.id);
          Strings all = names;
          for (auto u : { "", "a", "bb", "B", "h", "h0", "h7", "zz", "uu", "ul_", "1", "code" }) all.push_back(u);
          const Strings blocks { "", "{}", "{ }", "{x}", "{ x }", "{\nx\n}", "{x\n\ny}", "{\\b{x}}", "{\\item{x}}", "{\\title{x}}", "{\\hr}", "{/* c */}", "{x /* c */ y}", "{{x}}" };
          const Strings arguments { "", "[]", "[a=b]", "[lang=c,ext=d]" };
          const Strings contexts { "$x", "a $x b", "a\n\n$x\n\nb", "\\b{$x}", "\\h1{a $x}", "\\ul{$x}", "\\ol{$x\n$x}", "\\item{$x}", "\\ul{\\item{$x}}", "\\note{$x}", "\\note{a\n\n$x}", "\\meta{$x}", "\\title{$x}", "\\instruction{$x}" };
          for (auto& c : contexts)
              for (auto& n : all)
                  for (auto& a : arguments)
                      for (auto& b : blocks)
                          if (!emit(fill(c, { { 'x', "\\" + n + a + b } }))) return;
          for (size_t n = 2; n <= size_t(2 + depth); ++n)
              if (!all_sequences(names, n, "\1", [&](std::string_view x) {
                      std::string t = "\\", close;
                      for (char c : x) c == '\1' ? (t += "{\\", close += "}") : t += c;
                      return emit(t + "{x}" + close) && emit(t + close);
                  })) return;
      } },
    { "arguments", "all argument lists of <=4 of 20 lexemes in 4 contexts",
      "all argument lists of <=5 of 20 lexemes in 4 contexts", "all argument lists of <=6 of 20 lexemes in 4 contexts",
      [](int depth, const Emit& emit) {
          const Strings lexemes { "a", "b", "=", ",", " ", "\n", "0", "12", "0x1F", "0b1", "017", "0x", "9223372036854775807", "9223372036854775808", "]", "/*c*/", "x=", "a=b", "-", "\n\n" };
          const Strings contexts { "\\b[$x]{t}", "\\br[$x]", "\\ul[$x]", "\\meta{\\title[$x]}" };
          for (size_t n = 0; n <= size_t(4 + depth); ++n)
              for (size_t k = 0; k < (n < size_t(4 + depth) ? contexts.size() : 1); ++k)
                  if (n == 0 ? !emit(fill(contexts[k], { { 'x', "" } })) : !all_sequences(lexemes, n, "", [&](std::string_view x) { return emit(fill(contexts[k], { { 'x', std::string(x) } })); })) return;
      } },
    { "meta", "all \\meta contents of <=2 of 16 entries in 14 positions",
      "all \\meta contents of <=3 of 16 entries in 14 positions", "all \\meta contents of <=4 of 16 entries in 14 positions",
      [](int depth, const Emit& emit) {
          const Strings entries { "\\title{T}", "\\title", "\\title{}", "\\title[a=b]{x < y}", "\\title[a=1,c=d]", "\\bmsfun{f}", "\\bmsfun", "\\cequiv{x & ~y}", "\\cequiv{}", "/* c */", "\n\n", " // c\n", "\\title{ T\nU }", "\\title{\\{}", "\\b{x}", "text" };
          const Strings positions { "\\meta{$x}", "  /* c */\n\n\\meta{$x}\n\ntext", "text\n\n\\meta{$x}", "text \\meta{$x}", "\\meta{$x}\\meta{$x}", "\\meta\\meta{$x}", "\\hr\\meta{$x}", "\\note{\\meta{$x}}", "\\meta[a=b]{$x} \\h1{H}", "\\b{\\meta{$x}}", "\\br\\meta{$x}", "\\c{x}\n\\meta{$x}", "\\codeblock\\meta{$x}", "\\ul{}\\meta{$x}" };
          for (auto& p : positions) {
              if (!emit(fill(p, { { 'x', "" } }))) return;
              for (size_t n = 1; n <= size_t(2 + depth); ++n)
                  if (!all_sequences(entries, n, "", [&](std::string_view x) { return emit(fill(p, { { 'x', std::string(x) } })); })) return;
          }
      } },
    { "code", "all sequences of <=2 of 34 BMS lexemes and <=3 of 17 joined by each of 2 separators in 5 contexts; all languages and architectures",
      "all sequences of <=3 of 34 BMS lexemes and <=4 of 17 joined by each of 2 separators in 5 contexts; all languages and architectures", "all sequences of <=4 of 34 BMS lexemes and <=5 of 17 joined by each of 2 separators in 5 contexts; all languages and architectures",
      [](int depth, const Emit& emit) {
          const Strings contexts { "\\c{$x}", "\\codeblock{$x}", "\\codeblock{\n  $x\n}", "\\note{\\codeblock{\n$x}}", "\\c[lang=text]{$x}" };
          for (auto& l : { "bms", "bmd", "c", "cxx", "cpp", "plain", "plaintext", "text", "raw", "rust", "java", "BMS", "x", "1", "0x10", "bm", "bmss" })
              for (auto& b : { "", "{}", "{x}", "{ x // y\n }", "{\"}", "{a < b & c}", "{\\{}", "{#}" })
                  for (auto& k : { "c", "codeblock", "tt" }) if (!emit("\\" + std::string(k) + "[lang=" + l + "]" + b) || !emit("a \\" + std::string(k) + "[x=y, lang=" + l + "]" + b + " b")) return;
          for (auto& l : { "x86", "x86_64", "arm", "risc_v", "power", "power_pc", "sparc", "mips", "ibm_z", "x", "64", "X86" })
              for (auto& e : { "", ",ext=bmi1", ",ext=1", ",ext=a_b" })
                  for (auto& b : { "", "{}", "{andn}", "{a \"b\" <c>&d}", "{ x\ty\n}", "{\\{}", "{\\b{x}}" })
                      if (!emit("\\instruction[arch=" + std::string(l) + e + "]" + b) || !emit("\\instruction[" + (*e ? std::string(e + 1) : "") + "]" + b)) return;
          const Strings few { "x", "1", "\n", " ", "\t", "/*\n\t*/", "// c\n", "<", "\"s\"", "{", "}", "&&", "Uint", "if", "\r", "=>", "#" };
          const Strings many { "x", "1", "\n", " ", "\t", "/*\n\t*/", "// c\n", "<", "\"s\"", "{", "}", "&&", "Uint", "if", "\r", "=>", "#", "true", "0x1", "0b1", "07", "(", ")", "->", ".", "@", ";", "<=", "-", "\"\\\"", "/* < */", "Void", "static_assert", "\\{" };
          for (auto& c : contexts)
              for (auto separator : { "", " " }) {
                  for (size_t n = 1; n <= size_t(2 + depth); ++n) if (!all_sequences(many, n, separator, [&](std::string_view x) { return emit(fill(c, { { 'x', std::string(x) } })); })) return;
                  const size_t n = size_t(3 + depth);
                  if (!all_sequences(few, n, separator, [&](std::string_view x) { return emit(fill(c, { { 'x', std::string(x) } })); })) return;
              }
      } },
    { "raw", "all sequences of <=4 of 12 lexemes about braces, escapes and comments in 6 contexts", "all sequences of <=5 of 12 lexemes about braces, escapes and comments in 6 contexts", "all sequences of <=6 of 12 lexemes about braces, escapes and comments in 6 contexts",
      [](int depth, const Emit& emit) {
          const Strings contexts { "\\c[lang=text]{$x}", "\\codeblock[lang=c]{$x}\n\nb", "a $x b", "\\b{$x} c", "\\note{$x}", "\\title{$x}" };
          const Strings lexemes { "{", "}", "/*", "*/", "*", "/", "//", "\n", "\\", "a", "\\{", " " };
          for (auto& c : contexts)
              for (size_t n = 1; n <= size_t(4 + depth); ++n)
                  if (!all_sequences(lexemes, n, "", [&](std::string_view x) { return emit(fill(c, { { 'x', std::string(x) } })); })) return;
      } },
    { "sizes", "39 templates of documents with n repeated or nested constructs (paragraphs, directives, lists, notes, arguments, words, code, comments, blank lines, titles), right and with a mistake at the end, for every n in 0..20, 31..33, 63..65, 127..129",
      "the same for every n in 0..70, 99..101, 126..130, 254..258", "the same for every n in 0..140, 254..258, 510..514, 1022..1026, 4095..4097",
      [](int depth, const Emit& emit) {
          std::set<int> ns;
          auto range = [&](int a, int b) { for (int i = a; i <= b; ++i) ns.insert(i); };
          if (depth == 0) { range(0, 20); range(31, 33); range(63, 65); range(127, 129); }
          else if (depth == 1) { range(0, 70); range(99, 101); range(126, 130); range(254, 258); }
          else { range(0, 140); range(254, 258); range(510, 514); range(1022, 1026); range(4095, 4097); }
          for (int n : ns) {
              const int shallow = std::min(n, 300);
              auto each = [](int n, auto&& f, std::string sep = "") { std::string r; for (int i = 0; i < n; ++i) { if (i) r += sep; r += f(i); } return r; };
              auto rep = [&](std::string t, int n) { return each(n, [&](int) { return t; }); };
              auto id = [](int i) { std::string r = "k"; do r += char('a' + i % 26); while (i /= 26); return r; };
              const Strings texts {
                  each(n, [](int i) { return "p" + std::to_string(i); }, "\n\n"), each(n, [](int i) { return "w" + std::to_string(i); }, " "), each(n, [](int i) { return "l" + std::to_string(i); }, "\n"),
                  rep("\\b{x} ", n), rep("\\b{x}", n), rep("\\br", n), rep("\\hr\n", n), rep("\\br{} a ", n), rep("\\b{", shallow) + "x" + rep("}", shallow), rep("\\i{a \\u{", shallow / 2) + "x" + rep("} b}", shallow / 2),
                  rep("\\note{", shallow) + "x" + rep("}", shallow), rep("\\note{\n\n", shallow) + "x" + rep("\n\n}\n", shallow), "\\ul{" + each(n, [](int i) { return "\\item{" + std::to_string(i) + "}"; }) + "}", "\\ol{\n" + rep("  \\item{a b}\n", n) + "}\n",
                  "\\note{" + rep("\\ul{\\item{x}}", n) + "}", each(n, [](int i) { return "\\h" + std::to_string(1 + i % 6) + "{H}"; }), "\\b[" + each(n, [&](int i) { return id(i) + "=" + std::to_string(i); }, ", ") + "]{x}",
                  "\\hr[" + each(n, [&](int i) { return id(n - i) + "=v" + std::to_string(i); }, ",") + "]", "\\b[" + each(n, [&](int i) { return id(i) + "=1"; }, ",") + ",ka=2]{x}", "\\b[a=" + rep("v", n) + "]{x}", "\\b[" + rep("k", n) + "=1]{x}",
                  "\\b[a=" + rep("1", n) + "]{x}", "\\b[a=0x" + rep("0", n) + "1]{x}", "\\b[" + rep(" ", n) + "a" + rep("\n", n) + "=" + rep("\t", n) + "b" + rep("/**/", n) + "]{x}", rep("a", n) + "\\b{" + rep("b", n) + "}" + rep("c", n), "\\" + rep("b", n) + "{x}", rep("\n", n) + "a" + rep("\n", n) + "b" + rep("\n", n),
                  rep(" ", n) + "a" + rep(" ", n) + "b" + rep(" ", n), rep("// c\n", n) + "a\n" + rep("// d\n", n) + "b", rep("/* c */", n) + "a", "/*" + rep("*", n) + "*/a/*" + rep("/", n) + "*/", rep("\\\\", n) + rep("\\{", n) + rep("\\}", n), rep("<", n) + rep("&", n) + rep(">", n) + rep("\"", n) + rep("'", n),
                  "\\c{" + rep("x + 1; ", n) + "}", "\\c[lang=text]{" + rep("{", shallow) + "a" + rep("}", shallow) + "}", "\\codeblock{\n" + each(n, [](int i) { return "let x" + std::to_string(i) + " = " + std::to_string(i) + ";"; }, "\n") + "\n}", "\\codeblock{" + rep("\n", n) + rep(" ", n) + "x" + rep("\t", n) + "y" + rep("\n", n) + "}",
                  "\\codeblock[lang=c]{" + rep("/* < */ ", n) + "}", rep("\\c{x}", n), rep("\\codeblock{x}\n\n", n), "\\meta{\\title{" + rep("t ", n) + "}}\n" + rep("\\h1{x}\n", n), "\\meta{\\bmsfun{" + rep("f", n) + "}\\title{T}\\cequiv{" + rep("x & ", n) + "}}" + rep("a", n), "\\instruction[arch=x86, ext=" + rep("e", n) + "]{" + rep("andn ", n) + "}" };
              for (auto& t : texts)
                  for (auto f : { "$x", "$x\\zz", "$x}", "$x\\b{", "\\note{$x}", "\\ul{\\item{$x}}", "a\n\n$x\n\n\\item" })
                      if (!emit(fill(f, { { 'x', t } }))) return;
          }
      } },
    { "sequences", "34 documents, correct and wrong, one after another in one process, in all pairs, by each of 8 workers", "34 documents, correct and wrong, one after another in one process, in all pairs, by each of 8 workers", "the same in all triples of every third document and all pairs",
      [](int depth, const Emit& emit) {
          const Strings documents {
              "", "a", "a\n\nb", "a \\b{x} c", "\\b{x", "\\b{a\n\nb}", "\\zz{x}", "\\b[a=1]{x}", "\\b[a=1,a=2]{x}", "\\b[a=]{x}", "\\meta{\\title{A}}\nx", "\\meta{\\title{B}}\n\\meta{\\title{C}}", "\\title{x}", "\\meta{\\bmsfun{f}\\cequiv{g}}", "\\meta{x}", "\\h1{x}\n\\h2[id=y]{z}", "\\ul{\\item{a}\\item{b}}",
              "\\ol[start=3]{\\item{a}}", "\\item{a}", "\\note{a\n\nb}", "\\hr", "\\br", "\\hr{x}", "\\c{x + 1}", "\\c[lang=c]{x + 1}", "\\c[lang=zz]{x}", "\\c{/* x}", "\\codeblock{\nlet x = 1;\n}", "\\codeblock[lang=text]{a  b}", "\\instruction[arch=x86]{andn}", "\\instruction[arch=zz]{andn}", "a // b\nc", "/* a", "< & > \\\\ \\{ \\}" };
          auto each_worker = [&](const std::string& p) {
              for (int i = 0; i < 8; ++i) if (!emit(p)) return false;
              return true;
          };
          for (auto& a : documents)
              for (auto& b : documents) if (!each_worker(a) || !each_worker(b)) return;
          if (depth > 1)
              for (size_t i = 0; i < documents.size(); i += 3)
                  for (size_t j = 0; j < documents.size(); j += 3)
                      for (size_t k = 0; k < documents.size(); k += 3) if (!each_worker(documents[i]) || !each_worker(documents[j]) || !each_worker(documents[k])) return;
      } },
    { "edits", "24 documents with every deletion, insertion and replacement of one of 40 characters", "24 documents with every deletion, doubling, swap, insertion and replacement of any one byte", "24 documents with every deletion, doubling, swap, insertion and replacement of any one byte; all pairs of edits with 14 characters",
      [](int depth, const Emit& emit) {
          const Strings documents {
              "Text with words.\n\nAnother\nparagraph.\n", "a \\b{bold \\i{both}} c\n", "\\h1{One}\n\n\\h2[id=two]{Two}\ntext\n", "\\ul{\n    \\item{a}\n    \\item{b \\b{c}}\n}\n", "\\ol[start=3]{\\item[value=0x10]{x}}",
              "\\note{\n    a\n\n    \\hr\n    b\n}\n", "\\meta{\n    \\title{A < B}\n    \\bmsfun{f}\n    \\cequiv{x & y}\n}\n\ntext\n", "\\c{x + 1} and \\c[lang=c]{a->b}", "\\codeblock{\nfunction f() {\n    // }\n    g(x);\n}\n}\n",
              "\\codeblock[lang=text]{a { b } \\{ /* } */ c}", "\\instruction[arch=x86, ext=bmi1]{andn}", "\\instruction[arch=arm]{rbit}", "a // comment { \\b\nb /* c\n\nd */ e\n", "\\b[a=b, c=12, d=0b101,]{x}", "\\br\\hr{}\\br[a=1]", "\\{a\\}\\\\b",
              "\\sup{2}\\sub{3}\\q{4}\\kbd{5}\\s{6}\\tt{7}\\u{8}\\del{9}", "\t\\b{a}\r\n\r\n\tb", "\\b{}\\i{ }\\u{/**/}", "a & b < c > d \" e ' f", "\\b[x=/**/y // z\n]{t}", "\\h3{a} b\nc \\h4{d}", "\\b{\\c{{}}}", "\\note{\\note{\\ul{\\item{x}}}}" };
          constexpr char common_chars[] = "ab1 \n\t\r\\{}[]/*,=<>&\"'#;:.0x_-\v\0!?()|+@$%";
          static_assert(sizeof(common_chars) - 1 == 40);
          const std::string_view common(common_chars, sizeof(common_chars) - 1);
          auto edits = [&](const std::string& s, std::string_view chars, size_t from, auto&& f) { // at or after `from`
              for (size_t i = from; i <= s.size(); ++i) {
                  if (i < s.size()) {
                      if (!f(s.substr(0, i) + s.substr(i + 1), i)) return false;
                      if (!f(s.substr(0, i + 1) + s.substr(i), i + 2)) return false;
                      if (i + 1 < s.size() && s[i] != s[i + 1]) {
                          std::string t = s;
                          std::swap(t[i], t[i + 1]);
                          if (!f(t, i + 2)) return false;
                      }
                  }
                  for (char c : chars) {
                      std::string t = s;
                      t.insert(i, 1, c);
                      if (!f(t, i + 1)) return false;
                      if (i == s.size()) continue;
                      t = s;
                      t[i] = c;
                      if (!f(t, i + 1)) return false;
                  }
              }
              return true;
          };
          std::string all;
          for (int c = 0; c < 256; ++c) all += char(c);
          for (auto& s : documents)
              if (!emit(s) || !edits(s, depth > 0 ? std::string_view(all) : common, 0, [&](const std::string& t, size_t) { return emit(t); })) return;
          if (depth > 1)
              for (auto& s : documents)
                  if (!edits(s, "a1 \n\\{}[]/*,=\"", 0, [&](const std::string& t, size_t at) { return edits(t, "a1 \n\\{}[]/*,=\"", at, [&](const std::string& u, size_t) { return emit(u); }); })) return;
      } },
};

struct Document : Suite {
    const Space& space;
    Mode mode;
    std::string own;
    Document(const Space& s, Mode m) : space(s), mode(m), own(std::string(m == mode_parse ? "parse_" : m == mode_html ? "html_" : "total_") + s.id) { }
    const char* name() const override { return own.c_str(); }
    const char* bound(Tier t) const override { const int depth = (t == Tier::quick ? 1 : 2) - (mode == mode_total); return depth == 0 ? space.bound_small : depth == 1 ? space.bound_quick : space.bound_thorough; }
    void enumerate(Tier t, const Emit& emit) override { space.enumerate((t == Tier::quick ? 1 : 2) - (mode == mode_total), emit); }
    void check(std::string_view c, Ctx& ctx) override { check_document(c, ctx, mode); }
};
struct Register_All {
    Register_All()
    {
        for (auto& s : spaces)
            for (auto m : { mode_parse, mode_html, mode_total }) suites().push_back(new Document(s, m));
    }
} register_all;
}
