// Reference for BMD documents: parser written from grammar.ebnf, README.md and the enumerations'
// documentation, and the HTML events a document stands for.
#pragma once
#include <map>
#include <set>
#include <string>
#include <string_view>
#include <vector>

#include "bmd/directive_type.hpp"
#include "bmd/html/doc_to_html.hpp"
#include "bmd/parsing/parse.hpp"
#include "ref_lex.hpp"

namespace refbmd {

using Code = bit_manipulation::bmd::Parse_Error_Code;
using Doc_Code = bit_manipulation::bmd::Document_Error_Code;
using Type = bit_manipulation::bmd::Directive_Type;

enum class Content { nothing, text, span, block, meta, list, raw };
enum class Place { paragraph, content, meta, list };
struct Kind { const char* id; Type type; Content content; Place place; const char* tag; };
inline const Kind kinds[] = {
    { "b", Type::bold, Content::span, Place::paragraph, "b" },
    { "br", Type::line_break, Content::nothing, Place::paragraph, "br" },
    { "del", Type::deleted, Content::span, Place::paragraph, "del" },
    { "h1", Type::heading1, Content::span, Place::content, "h1" },
    { "h2", Type::heading2, Content::span, Place::content, "h2" },
    { "h3", Type::heading3, Content::span, Place::content, "h3" },
    { "h4", Type::heading4, Content::span, Place::content, "h4" },
    { "h5", Type::heading5, Content::span, Place::content, "h5" },
    { "h6", Type::heading6, Content::span, Place::content, "h6" },
    { "hr", Type::horizontal_rule, Content::nothing, Place::content, "hr" },
    { "i", Type::italic, Content::span, Place::paragraph, "i" },
    { "kbd", Type::keyboard, Content::span, Place::paragraph, "kbd" },
    { "ol", Type::ordered_list, Content::list, Place::content, "ol" },
    { "q", Type::quoted, Content::span, Place::paragraph, "q" },
    { "s", Type::strikethrough, Content::span, Place::paragraph, "s" },
    { "sub", Type::subscript, Content::span, Place::paragraph, "sub" },
    { "sup", Type::superscript, Content::span, Place::paragraph, "sup" },
    { "tt", Type::teletype, Content::span, Place::paragraph, "tt" },
    { "u", Type::underlined, Content::span, Place::paragraph, "u" },
    { "ul", Type::unordered_list, Content::list, Place::content, "ul" },
    { "c", Type::code, Content::raw, Place::paragraph, "code" },
    { "codeblock", Type::code_block, Content::raw, Place::content, "pre" },
    { "instruction", Type::instruction, Content::text, Place::paragraph, "" },
    { "item", Type::item, Content::span, Place::list, "li" },
    { "note", Type::note, Content::block, Place::content, "div" },
    { "meta", Type::meta, Content::meta, Place::content, "" },
    { "title", Type::title, Content::text, Place::meta, "h1" },
    { "bmsfun", Type::bms_function, Content::text, Place::meta, "" },
    { "cequiv", Type::c_equivalent, Content::text, Place::meta, "" },
};
inline const Kind* kind_of(std::string_view id)
{
    for (auto& k : kinds) if (k.id == id) return &k;
    return nullptr;
}
inline const Kind& kind_of(Type t)
{
    for (auto& k : kinds) if (k.type == t) return k;
    std::abort();
}

struct Argument { std::string key; bool number; std::string value; };
struct Node {
    enum What { list, directive, text } what;
    size_t begin, end;
    const Kind* kind = nullptr;
    std::vector<Argument> arguments;
    std::vector<Node> children; // of a list; of a directive: nothing or its block
};

struct Error { Code code; size_t low, high; };

struct Parser {
    std::string_view s;
    size_t p = 0, end = 0;

    static bool space(char c) { return c == ' ' || c == '\t' || c == '\r' || c == '\n'; }
    bool eof() const { return p >= end; }
    bool at(std::string_view t) const { return s.substr(p, end - p).starts_with(t); }
    bool escape_at(size_t i) const { return i + 1 < end && s[i] == '\\' && (s[i + 1] == '\\' || s[i + 1] == '{' || s[i + 1] == '}'); }
    bool directive_here() const { return !eof() && s[p] == '\\' && !escape_at(p); }
    [[noreturn]] void fail(Code c, size_t low, size_t high) const { throw Error { c, low, high }; }
    [[noreturn]] void fail(Code c) const { fail(c, p, p); }

    // The end of the whitespace and comments at i, and whether they contain a blank line.
    std::pair<size_t, bool> blank_at(size_t i) const
    {
        bool breaks = false, blank_line = false; // blank_line: nothing but whitespace since the last line feed
        const size_t start = i;
        while (i < end) {
            if (s.substr(i, end - i).starts_with("//")) {
                const size_t n = s.substr(0, end).find('\n', i);
                blank_line = n != s.npos;
                i = n == s.npos ? end : n + 1;
            }
            else if (s.substr(i, end - i).starts_with("/*")) {
                const size_t n = s.substr(0, end).find("*/", i + 2);
                if (n == s.npos) fail(Code::unterminated_comment, start, end);
                blank_line = false;
                i = n + 2;
            }
            else if (space(s[i])) {
                if (s[i] == '\n') {
                    breaks |= blank_line;
                    blank_line = true;
                }
                ++i;
            }
            else break;
        }
        return { i, breaks };
    }
    bool skip_blank()
    {
        auto [e, b] = blank_at(p);
        p = e;
        return b;
    }
    // One line break is fine inside text, blank lines and comments are not.
    Node text()
    {
        Node n { Node::text, p, p };
        while (p < end && !directive_here()) {
            if (s.substr(p, end - p).starts_with("//") || s.substr(p, end - p).starts_with("/*")) break;
            if (space(s[p])) {
                size_t q = p;
                int lines = 0;
                while (q < end && space(s[q])) lines += s[q++] == '\n';
                if (lines > 1) break;
                p = q;
                continue;
            }
            p += escape_at(p) ? 2 : 1;
            n.end = p;
        }
        p = n.end;
        return n;
    }
    std::string identifier()
    {
        if (eof()) fail(Code::unexpected_eof);
        if (!ref::ident_start(s[p])) fail(Code::unexpected_character);
        size_t b = p;
        while (!eof() && ref::ident_char(s[p])) ++p;
        return std::string(s.substr(b, p - b));
    }
    void argument_blank()
    {
        auto [e, breaks] = blank_at(p);
        if (!breaks) p = e;
    }
    std::vector<Argument> arguments()
    {
        std::vector<Argument> r;
        ++p;
        while (true) {
            argument_blank();
            if (at("]")) break;
            const size_t b = p;
            Argument a { identifier() };
            argument_blank();
            if (eof()) fail(Code::unexpected_eof);
            if (s[p] != '=') fail(Code::unexpected_character);
            ++p;
            argument_blank();
            if (!eof() && s[p] >= '0' && s[p] <= '9') {
                a.number = true;
                const size_t v = p;
                int base = 10;
                if (at("0b")) base = 2, p += 2;
                else if (at("0x")) base = 16, p += 2;
                else if (at("0")) base = 8;
                const size_t d = p;
                unsigned __int128 value = 0;
                bool big = false;
                for (; !eof() && ref::digit_of(s[p], base); ++p) {
                    const char c = s[p];
                    value = value * base + unsigned(c <= '9' ? c - '0' : (c | 32) - 'a' + 10);
                    big |= value > 0x7fffffffffffffff;
                    if (big) value = 0x8000000000000000;
                }
                if (p == d) fail(Code::invalid_integer_literal, v, p);
                if (!eof() && ref::ident_char(s[p])) fail(Code::integer_suffix);
                if (big) fail(Code::invalid_integer_literal, v, p);
                a.value = std::to_string(uint64_t(value));
            }
            else {
                a.number = false;
                a.value = identifier();
            }
            for (auto& o : r) if (o.key == a.key) fail(Code::duplicate_argument, b, p);
            r.push_back(a);
            argument_blank();
            if (eof()) fail(Code::unexpected_eof);
            if (s[p] != ',') break;
            ++p;
        }
        if (eof()) fail(Code::unexpected_eof);
        if (s[p] != ']') fail(Code::unexpected_character);
        ++p;
        return r;
    }
    size_t closing_brace() const // of the block whose content starts at p
    {
        int level = 1;
        for (size_t i = p; i < end; ++i) {
            if (escape_at(i)) { ++i; continue; }
            const auto rest = s.substr(i, end - i);
            if (rest.starts_with("//")) {
                while (i < end && s[i] != '\n') ++i;
            }
            else if (rest.starts_with("/*")) {
                const size_t n = s.substr(0, end).find("*/", i + 2);
                if (n == s.npos) fail(Code::unterminated_comment, i, end);
                i = n + 1;
            }
            else if (s[i] == '{') ++level;
            else if (s[i] == '}' && --level == 0) return i;
        }
        fail(Code::unexpected_eof, end, end);
    }
    static bool allows(Content c, Place p)
    {
        switch (c) {
        case Content::span: return p == Place::paragraph;
        case Content::block: return p == Place::paragraph || p == Place::content;
        case Content::meta: return p == Place::meta;
        case Content::list: return p == Place::list;
        default: return false;
        }
    }
    Node directive(Content context)
    {
        Node n { Node::directive, p, p };
        ++p;
        const size_t b = p;
        const std::string id = identifier();
        n.kind = kind_of(id);
        if (!n.kind) fail(Code::invalid_directive, b, b);
        if (!allows(context, n.kind->place)) fail(Code::directive_not_allowed, n.begin, p);
        if (at("[")) n.arguments = arguments();
        if (at("{")) {
            ++p;
            if (n.kind->content == Content::nothing) {
                skip_blank();
                if (!at("}")) fail(Code::directive_must_be_empty);
                ++p;
            }
            else {
                const size_t close = closing_brace(), outer = end;
                end = close;
                block(n);
                end = outer;
                p = close + 1;
            }
        }
        n.end = p;
        return n;
    }
    void block(Node& n)
    {
        const size_t b = p;
        switch (n.kind->content) {
        case Content::raw:
            if (b != end) n.children.push_back({ Node::text, b, end });
            break;
        case Content::block:
            skip_blank();
            n.children.push_back(content());
            break;
        case Content::meta:
        case Content::list: {
            Node l { Node::list, b, end };
            skip_blank();
            while (!eof()) {
                if (!directive_here()) fail(Code::text_in_directive_list);
                l.children.push_back(directive(n.kind->content));
                skip_blank();
            }
            n.children.push_back(l);
            break;
        }
        case Content::text: {
            if (skip_blank()) fail(Code::paragraph_break_in_span, b, p);
            Node t = text();
            const size_t a = p;
            if (skip_blank()) fail(Code::paragraph_break_in_span, a, p);
            if (!eof()) fail(directive_here() ? Code::directive_in_text_span : Code::unexpected_character);
            if (t.begin != t.end) n.children.push_back(t);
            break;
        }
        case Content::span: {
            if (skip_blank()) fail(Code::paragraph_break_in_span, b, p);
            Node l { Node::list, p, end };
            while (!eof()) {
                l.children.push_back(directive_here() ? directive(Content::span) : text());
                const size_t a = p;
                if (skip_blank()) fail(Code::paragraph_break_in_span, a, p);
            }
            n.children.push_back(l);
            break;
        }
        default: std::abort();
        }
    }
    Node content()
    {
        Node r { Node::list, p, end };
        bool open = false; // whether the last child is a paragraph that can be continued
        while (!eof()) {
            Node n = directive_here() ? directive(Content::block) : text();
            if (n.what == Node::directive && n.kind->place == Place::content) {
                open = false;
                r.children.push_back(n);
            }
            else {
                if (!open) r.children.push_back({ Node::list, n.begin, n.end });
                open = true;
                r.children.back().end = n.end;
                r.children.back().children.push_back(n);
            }
            if (skip_blank()) open = false;
        }
        return r;
    }
};

// The document's content, or no node for documents without content.  Throws Error.
inline std::vector<Node> parse(std::string_view s)
{
    Parser p { s, 0, s.size() };
    p.skip_blank();
    if (p.eof()) return {};
    return { p.content() };
}

// ---- HTML ------------------------------------------------------------------------------------

struct Event {
    enum What { open, close, empty, text } what;
    std::string name; // tag or text
    std::map<std::string, std::string> attributes;
    bool operator==(const Event&) const = default;
};
using Events = std::vector<Event>;

struct Doc_Error { Doc_Code code; size_t low, high; };

inline const char* span_tag(ref::Token_Type t)
{
    using enum ref::Token_Type;
    switch (t) {
    case identifier: return "c-idn";
    case left_parenthesis: case right_parenthesis: case left_brace: case right_brace: return "c-bra";
    case binary_literal: case octal_literal: case decimal_literal: case hexadecimal_literal: return "c-int";
    case string_literal: return "c-str";
    case block_comment: case line_comment: return "c-com";
    case double_right_arrow: return "c-err";
    case at: case dot: case colon: case comma: case semicolon: case right_arrow: return "c-pun";
    case keyword_true: case keyword_false: return "c-bol";
    case keyword_uint: case keyword_int: case keyword_bool: case keyword_void: return "c-typ";
    case keyword_as: case keyword_let: case keyword_const: case keyword_function: case keyword_while: case keyword_if: case keyword_else: case keyword_requires: case keyword_return: case keyword_break: case keyword_continue: case keyword_static_assert: return "c-key";
    default: return "c-opr";
    }
}

struct Converter {
    std::string_view s;
    Events out;
    bool at_start = true;

    void open(std::string n, std::map<std::string, std::string> a = {}) { out.push_back({ Event::open, n, a }); }
    void close(std::string n) { out.push_back({ Event::close, n }); }
    void text(std::string t) { out.push_back({ Event::text, t }); }
    std::string plain(const Node& n) const
    {
        std::string r;
        for (size_t i = n.begin; i < n.end; ++i) {
            if (s[i] == '\\' && i + 1 < n.end && (s[i + 1] == '\\' || s[i + 1] == '{' || s[i + 1] == '}')) ++i;
            r += s[i];
        }
        return r;
    }
    static const Argument* argument(const Node& d, const char* key)
    {
        for (auto& a : d.arguments) if (a.key == key) return &a;
        return nullptr;
    }
    static std::map<std::string, std::string> attributes(const Node& d)
    {
        std::map<std::string, std::string> r;
        for (auto& a : d.arguments) r[a.key] = a.value;
        return r;
    }
    void spans(const Node& list)
    {
        for (size_t i = 0; i < list.children.size(); ++i) {
            auto& c = list.children[i];
            if (i && list.children[i - 1].end != c.begin) text(" ");
            if (c.what == Node::text) {
                at_start = false;
                text(plain(c));
            }
            else directive(c);
        }
    }
    void content(const Node& n)
    {
        for (auto& c : n.children) {
            if (c.what == Node::directive) { directive(c); continue; }
            open("p");
            spans(c);
            close("p");
        }
    }
    void code(const Node& d)
    {
        std::string lang = "bms";
        if (auto* a = argument(d, "lang")) {
            if (a->number) throw Doc_Error { Doc_Code::number_attribute_not_allowed, d.begin, d.end };
            static const std::set<std::string> known { "bmd", "bms", "c", "cxx", "cpp", "plain", "plaintext", "text", "raw", "rust" };
            if (!known.count(a->value)) throw Doc_Error { Doc_Code::invalid_language, d.begin, d.end };
            lang = a->value;
        }
        open(d.kind->tag);
        if (!d.children.empty()) {
            const auto& t = d.children[0];
            const auto source = s.substr(t.begin, t.end - t.begin);
            if (lang != "bms") text(std::string(source));
            else {
                auto r = ref::ref_lex(source);
                if (r.error) throw Doc_Error { Doc_Code::code_tokenization_failure, d.begin, d.end };
                for (size_t i = 0; i < r.tokens.size(); ++i) {
                    auto& k = r.tokens[i];
                    if (i) {
                        const size_t e = r.tokens[i - 1].begin + r.tokens[i - 1].length;
                        if (e != k.begin) text(std::string(source.substr(e, k.begin - e)));
                    }
                    open(span_tag(k.type));
                    text(std::string(source.substr(k.begin, k.length)));
                    close(span_tag(k.type));
                }
            }
        }
        close(d.kind->tag);
    }
    void instruction(const Node& d)
    {
        static const std::set<std::string> x86 { "x86", "x86_64" }, others { "arm", "risc_v", "power", "power_pc", "sparc", "mips", "ibm_z" };
        bool link = true;
        if (auto* a = argument(d, "arch")) {
            if (a->number) throw Doc_Error { Doc_Code::number_attribute_not_allowed, d.begin, d.end };
            link = x86.count(a->value);
            if (!link && !others.count(a->value)) throw Doc_Error { Doc_Code::invalid_architecture, d.begin, d.end };
        }
        auto* extension = argument(d, "ext");
        if (extension && extension->number) throw Doc_Error { Doc_Code::number_attribute_not_allowed, d.begin, d.end };
        const std::string t = d.children.empty() ? "" : plain(d.children[0]);
        if (link) open("a", { { "href", "https://www.felixcloutier.com/x86/" + t } });
        open("code");
        text(t);
        close("code");
        if (link) close("a");
        if (extension) {
            open("sup");
            text(extension->value);
            close("sup");
        }
    }
    void meta(const Node& d)
    {
        if (!at_start) throw Doc_Error { Doc_Code::meta_not_at_start_of_file, d.begin, d.end };
        at_start = false;
        if (d.children.empty()) return;
        std::set<Type> seen;
        const Node* title = nullptr;
        for (auto& c : d.children[0].children) {
            if (!seen.insert(c.kind->type).second) throw Doc_Error { Doc_Code::duplicate_meta_entry, c.begin, c.end };
            if (c.kind->type == Type::title) title = &c;
        }
        if (!title) return;
        open("h1", attributes(*title));
        if (!title->children.empty()) text(plain(title->children[0]));
        close("h1");
    }
    void directive(const Node& d)
    {
        switch (d.kind->type) {
        case Type::meta: return meta(d);
        case Type::code:
        case Type::code_block: at_start = false; return code(d);
        case Type::instruction: at_start = false; return instruction(d);
        default: break;
        }
        at_start = false;
        if (d.kind->content == Content::nothing) {
            out.push_back({ Event::empty, d.kind->tag, attributes(d) });
            return;
        }
        open(d.kind->tag, attributes(d));
        if (!d.children.empty()) d.kind->content == Content::block ? content(d.children[0]) : spans(d.children[0]);
        close(d.kind->tag);
    }
};

inline Events convert(std::string_view s, const std::vector<Node>& document, const std::vector<std::string>& sheets)
{
    Converter c { s };
    c.open("html");
    c.open("head");
    for (auto& h : sheets) c.out.push_back({ Event::empty, "link", { { "rel", "stylesheet" }, { "href", h } } });
    c.close("head");
    c.open("body");
    if (!document.empty()) c.content(document[0]);
    c.close("body");
    c.close("html");
    return c.out;
}

// ---- reading HTML -----------------------------------------------------------------------------

struct Bad_Html { std::string why; };

// The events of an HTML document; tags must be balanced, text and attributes properly escaped.
inline Events read_html(std::string_view h)
{
    Events r;
    std::vector<std::string> stack;
    static const std::string_view preamble = "<!DOCTYPE html>";
    if (!h.starts_with(preamble)) throw Bad_Html { "no preamble" };
    size_t p = preamble.size();
    auto name = [&] {
        const size_t b = p;
        while (p < h.size() && (ref::ident_char(h[p]) || h[p] == '-')) ++p;
        if (p == b || (h[b] >= '0' && h[b] <= '9')) throw Bad_Html { "bad name" };
        return std::string(h.substr(b, p - b));
    };
    auto entity = [&]() -> char {
        static const std::pair<std::string_view, char> known[] { { "&lt;", '<' }, { "&gt;", '>' }, { "&amp;", '&' }, { "&quot;", '"' } };
        for (auto [e, c] : known)
            if (h.substr(p).starts_with(e)) {
                p += e.size();
                return c;
            }
        throw Bad_Html { "unescaped ampersand" };
    };
    static const std::set<std::string> voids { "br", "hr", "link" };
    while (p < h.size()) {
        if (h[p] != '<') {
            std::string t;
            while (p < h.size() && h[p] != '<') {
                if (h[p] == '>') throw Bad_Html { "unescaped bracket" };
                t += h[p] == '&' ? entity() : h[p++];
            }
            r.push_back({ Event::text, t });
            continue;
        }
        ++p;
        if (h.substr(p).starts_with("/")) {
            ++p;
            const auto n = name();
            if (h.substr(p, 1) != ">") throw Bad_Html { "bad closing tag" };
            ++p;
            if (stack.empty() || stack.back() != n) throw Bad_Html { "unbalanced </" + n + ">" };
            stack.pop_back();
            r.push_back({ Event::close, n });
            continue;
        }
        Event e { Event::open, name() };
        while (true) {
            bool gap = false;
            while (p < h.size() && (h[p] == ' ' || h[p] == '\n' || h[p] == '\t')) ++p, gap = true;
            if (h.substr(p).starts_with("/>")) { p += 2; e.what = Event::empty; break; }
            if (h.substr(p).starts_with(">")) { ++p; break; }
            if (!gap) throw Bad_Html { "bad tag" };
            const auto key = name();
            std::string value;
            if (h.substr(p, 1) == "=") {
                ++p;
                if (h.substr(p, 1) == "\"") {
                    ++p;
                    while (p < h.size() && h[p] != '"') value += h[p] == '&' ? entity() : h[p++];
                    if (p == h.size()) throw Bad_Html { "unterminated attribute" };
                    ++p;
                }
                else {
                    while (p < h.size() && std::string_view(" \t\n\r\f>").find(h[p]) == std::string_view::npos) {
                        if (std::string_view("\"'`=<").find(h[p]) != std::string_view::npos) throw Bad_Html { "attribute value needs quotes" };
                        value += h[p] == '&' ? entity() : h[p++];
                    }
                    if (value.empty()) throw Bad_Html { "empty attribute value" };
                }
            }
            if (!e.attributes.emplace(key, value).second) throw Bad_Html { "duplicate attribute" };
        }
        if ((e.what == Event::empty) != bool(voids.count(e.name))) throw Bad_Html { "<" + e.name + (e.what == Event::empty ? "/> is not empty" : "> must be empty") };
        if (e.what == Event::open) stack.push_back(e.name);
        r.push_back(e);
    }
    if (!stack.empty()) throw Bad_Html { "<" + stack.back() + "> is not closed" };
    return r;
}

// Joins text, collapses whitespace outside code, drops it where it is meaningless.
inline Events normalize(const Events& events)
{
    static const std::set<std::string> blocks { "html", "head", "body", "link", "p", "div", "ul", "ol", "li", "hr", "pre", "h1", "h2", "h3", "h4", "h5", "h6" };
    Events r;
    int code = 0, pre = 0;
    bool pre_start = false;
    auto is_block = [&](const Event& e) { return e.what != Event::text && blocks.count(e.name); };
    auto space = [](char c) { return c == ' ' || c == '\n' || c == '\t' || c == '\r'; };
    for (auto& e : events) {
        const bool is_pre = e.name == "pre", is_code = is_pre || e.name == "code";
        if (e.what == Event::text) {
            std::string t;
            if (code) {
                t = e.name;
                if (pre_start) t.erase(0, std::min(t.size(), t.find_first_not_of(" \n\t\r")));
                if (t.empty()) continue;
                pre_start = false;
                if (!pre) { // indentation in inline code is meaningless
                    for (size_t i = 0; i < t.size(); ++i)
                        if (t[i] == '\n') t.erase(i + 1, std::min(t.size(), t.find_first_not_of(" ", i + 1)) - i - 1);
                }
            }
            else for (char c : e.name) {
                if (!space(c)) t += c;
                else if (t.empty() ? r.empty() || is_block(r.back()) || (r.back().what == Event::text && r.back().name.back() == ' ') : t.back() == ' ') { }
                else t += ' ';
            }
            if (t.empty()) continue;
            if (!r.empty() && r.back().what == Event::text) r.back().name += t;
            else r.push_back({ Event::text, t });
            continue;
        }
        if ((is_block(e) || (is_code && e.what == Event::close)) && !r.empty() && r.back().what == Event::text) { // meaningless trailing whitespace
            auto& t = r.back().name;
            if (!code || is_pre) while (!t.empty() && space(t.back())) t.pop_back();
            if (t.empty()) r.pop_back();
        }
        if (is_code) code += e.what == Event::open ? 1 : -1;
        if (is_pre) pre += e.what == Event::open ? 1 : -1;
        pre_start = is_pre && e.what == Event::open;
        r.push_back(e);
    }
    return r;
}

inline std::string to_string(const Events& events)
{
    std::string r;
    for (auto& e : events) {
        if (e.what == Event::text) { r += "'" + e.name + "' "; continue; }
        r += (e.what == Event::close ? "</" : "<") + e.name;
        for (auto& [k, v] : e.attributes) r += " " + k + "=" + v;
        r += e.what == Event::empty ? "/> " : "> ";
    }
    return r;
}

} // namespace refbmd
