// C17: generated C and C++ code, compiled with the installed compilers and compared with the
// reference interpreter on argument grids.
#include <csetjmp>
#include <csignal>
#include <dlfcn.h>
#include <filesystem>
#include <fstream>
#include <sstream>
#include <sys/wait.h>
#include <unistd.h>

#include "bms_suite.hpp"
#include "bmd/codegen/code_language.hpp"
#include "bmd/codegen/code_string.hpp"
#include "bmd/codegen/codegen.hpp"
using namespace verif;
namespace {

using bm::bmd::Brace_Style;
using bm::bmd::Code_Language;
using bm::bmd::Code_Options;
using bm::bmd::Code_Span_Type;
using ref::K;
using ull = unsigned long long;

struct Dialect {
    const char* name;
    Code_Language language;
    bool c23, bitint;
    Brace_Style style;
    char indent_char;
    size_t indent;
    bool parenthesize;
    const char* compile; // $s source, $o library, $e log
};
const Dialect dialects[] = {
    { "C99", Code_Language::c, false, false, Brace_Style::k_and_r, ' ', 4, false, "gcc -std=c99 -pedantic-errors -x c" },
    { "C99, all parentheses, allman", Code_Language::c, false, true, Brace_Style::allman, ' ', 2, true, "clang -std=c99 -pedantic-errors -fbracket-depth=4096 -x c" },
    { "C++20", Code_Language::cpp, false, false, Brace_Style::stroustrup, '\t', 1, false, "g++ -std=c++20 -pedantic-errors -x c++" },
    { "C++20, C23 options", Code_Language::cpp, true, true, Brace_Style::stroustrup, ' ', 2, false, "clang++ -std=c++20 -pedantic-errors -fbracket-depth=4096 -x c++" },
    { "C23", Code_Language::c, true, false, Brace_Style::k_and_r, ' ', 3, false, "gcc -std=c2x -pedantic-errors -x c" },
    // clang 18 knows _BitInt, but not constexpr
    { "C23, _BitInt", Code_Language::c, true, true, Brace_Style::allman, ' ', 4, false, "clang -std=c2x -pedantic-errors -fbracket-depth=4096 -Dconstexpr=const -x c" },
};
bool has_bitint(const Dialect& d) { return d.c23 && d.language == Code_Language::c; }
bool bit_precise(const Dialect& d) { return has_bitint(d) && d.bitint; }
Code_Options options_of(const Dialect& d)
{
    Code_Options o;
    o.indent_char = d.indent_char;
    o.indent_size = d.indent;
    o.brace_style = d.style;
    o.break_after_function = bm::bmd::is_break_after_function(d.style);
    o.break_after_if = bm::bmd::is_break_after_if(d.style);
    o.always_parenthesize_subexpressions = d.parenthesize;
    o.c_23 = d.c23;
    o.c_prefer_bitint = d.bitint;
    return o;
}

// ---- text ----------------------------------------------------------------------------------

std::optional<Code_Span_Type> kind_of(std::string_view t)
{
    using C = Code_Span_Type;
    static const std::set<std::string_view> keywords { "void", "int", "bool", "_Bool", "if", "else", "while", "return", "break", "continue", "constexpr", "unsigned", "_BitInt" };
    static const std::set<std::string_view> types { "uint8_t", "uint16_t", "uint32_t", "uint64_t", "std" };
    static const std::set<std::string_view> operators { "=", "==", "!=", "<", ">", "<=", ">=", "+", "-", "*", "/", "%", "&", "|", "^", "~", "!", "<<", ">>", "&&", "||", "?", ":", "::" };
    if (t == "true" || t == "false") return C::boolean_literal;
    if (keywords.count(t)) return C::keyword;
    if (types.count(t)) return C::type_name;
    if (operators.count(t)) return C::operation;
    if (t == ";" || t == ",") return C::punctuation;
    if (t == "(" || t == ")" || t == "{" || t == "}") return C::bracket;
    if (t[0] >= '0' && t[0] <= '9') return C::number;
    for (char c : t) if (!ref::ident_char(c)) return {};
    return C::identifier;
}

void check_text(const bm::bmd::Code_String& s, const Dialect& d, const std::function<void(std::string)>& fail)
{
    const std::string text(s.get_text());
    const Code_Options o = options_of(d);
    size_t at = 0;
    for (auto span : s) {
        if (span.begin < at || span.begin + span.length > text.size()) return fail("has overlapping spans");
        for (; at < span.begin; ++at) if (text[at] != ' ' && text[at] != '\n' && text[at] != '\t') return fail(std::string("has '") + text[at] + "' outside of spans");
        const auto t = text.substr(span.begin, span.length);
        if (auto k = kind_of(t); !k || *k != span.type) return fail("highlights '" + t + "' as " + std::string(code_span_type_tag(span.type)));
        at = span.begin + span.length;
    }
    for (; at < text.size(); ++at) if (text[at] != '\n') return fail("has text outside of spans");
    if (!text.empty() && text.back() != '\n') return fail("does not end with a line break");
    size_t depth = 0, n = 0, blanks = 0;
    std::istringstream in(text);
    std::string previous;
    for (std::string line; std::getline(in, line); ++n) {
        if (line.empty()) {
            if (depth || blanks++ || !n) return fail("has a misplaced empty line " + std::to_string(n));
            continue;
        }
        blanks = 0;
        const size_t first = line.find_first_not_of(" \t");
        if (first == line.npos || line.back() == ' ' || line.back() == '\t') return fail("has blanks at the end of line " + std::to_string(n));
        const size_t inner = depth - (line[first] == '}');
        if (line.substr(0, first) != std::string(inner * o.indent_size, o.indent_char)) return fail("has wrong indentation in line " + std::to_string(n) + ": " + line);
        const auto rest = line.substr(first);
        if (rest.find("  ") != rest.npos) return fail("has two spaces in line " + std::to_string(n) + ": " + line);
        const bool own = rest == "{", opens = rest.back() == '{';
        const bool function = depth == 0;
        const bool condition = rest.starts_with("if ") || rest.starts_with("while ") || rest.starts_with("else") || rest.starts_with("} else");
        if (opens && !own && function && o.break_after_function) return fail("has the brace of a function on its line");
        if (opens && !own && condition && o.break_after_if) return fail("has the brace of a condition on its line");
        if (own && function && !o.break_after_function) return fail("has the brace of a function on a line of its own");
        const auto p = previous.substr(std::min(previous.size(), previous.find_first_not_of(" \t")));
        const bool after_condition = (p.starts_with("if ") || p.starts_with("while ") || p.starts_with("else") || p.starts_with("} else")) && p.back() != '{' && p.back() != ';';
        if (own && after_condition && !o.break_after_if) return fail("has the brace of a condition on a line of its own");
        if (rest.starts_with("} else") != (rest.find("else") != rest.npos && d.style == Brace_Style::k_and_r)) return fail("has else in the wrong place: " + line);
        for (char c : line) { depth += c == '{'; depth -= c == '}'; }
        previous = line;
    }
    if (depth) fail("has unbalanced braces");
}

// ---- execution -----------------------------------------------------------------------------

sigjmp_buf jump;
void on_signal(int s) { siglongjmp(jump, s); }

std::string c_type(ref::Ty t, const Dialect& d)
{
    switch (t.k) {
    case K::Void: return "void";
    case K::Bool: return d.language == Code_Language::cpp ? "bool" : "_Bool";
    case K::Int: return "int";
    case K::Uint: return bit_precise(d) || (t.w != 8 && t.w != 16 && t.w != 32 && t.w != 64) ? "unsigned _BitInt(" + std::to_string(t.w) + ")" : "uint" + std::to_string(t.w) + "_t";
    }
    return "?";
}

bool run_command(const std::string& c)
{
    const pid_t pid = fork();
    if (pid == 0) {
        execl("/bin/sh", "sh", "-c", c.c_str(), nullptr);
        _exit(127);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    return WIFEXITED(st) && WEXITSTATUS(st) == 0;
}

bool standard_widths(const ref::P& p)
{ // every type that is written has one of the standard widths
    if (!p) return true;
    if (p->n == ref::N::Type && p->text == "Uint" && p->type && p->type->w != 8 && p->type->w != 16 && p->type->w != 32 && p->type->w != 64) return false;
    for (auto& c : p->c) if (!standard_widths(c)) return false;
    return true;
}

// `whole` is accepted and within the supported subset.
void check_execution(const std::string& whole, Ctx& ctx)
{
    ref::Program ref(whole);
    Pipeline real(whole);
    if (!real.ok() || ref.verdict != ref::Program::accepted) { ctx.outcome("rejected"); return; }
    struct Call { std::vector<ref::Val> args; ref::Val want; };
    struct Tested { ref::Node* f; std::vector<Call> calls; };
    std::vector<Tested> tested;
    for (auto& n : ref.parsed.root->c) {
        if (n->n == ref::N::Const && n->value && n->value->t.k != K::Void && (n->value->t.k != K::Int || (n->value->v >= -2147483648LL && n->value->v <= 2147483647))) {
            tested.push_back({ n.get(), { { {}, *n->value } } });
            continue;
        }
        if (n->n != ref::N::Function || n->generic) continue;
        Tested t { n.get(), {} };
        std::vector<std::vector<ref::Val>> dom;
        if (n->c[1]) for (auto& p : n->c[1]->c) dom.push_back(domain(*p->c[0]->type));
        std::vector<size_t> ix(dom.size(), 0);
        double tuples = 1;
        for (auto& x : dom) tuples *= double(x.size());
        const bool diagonal = dom.size() > 4 && tuples > 20000; // too many: a few tuples that differ in every place
        size_t round = 0;
        while (true) {
            std::vector<ref::Val> a;
            for (size_t i = 0; i < dom.size(); ++i) a.push_back(diagonal ? dom[i][(round * (i % 3 + 1) + i) % dom[i].size()] : dom[i][ix[i]]);
            auto r = ref.run(n.get(), a, 3000);
            if (r.kind == r.value && !r.wide) t.calls.push_back({ a, r.v });
            else ctx.outcome(r.kind == r.value ? "call: beyond int" : r.kind == r.error ? "call: error" : "call: does not terminate");
            if (diagonal) { if (++round == 30) break; continue; }
            size_t k = ix.size();
            while (k > 0) {
                if (++ix[k - 1] < dom[k - 1].size()) break;
                ix[--k] = 0;
            }
            if (k == 0) break;
        }
        tested.push_back(std::move(t));
    }
    const bool standard = standard_widths(ref.parsed.root);
    char name[] = "/tmp/bm-codegen-XXXXXX";
    const std::filesystem::path dir = mkdtemp(name);
    struct Remove { std::filesystem::path p; ~Remove() { std::filesystem::remove_all(p); } } remove { dir };
    for (auto& d : dialects) {
        auto fail = [&](const std::string& m) { ctx.fail(std::string("(") + d.name + ") " + m); };
        bm::bmd::Code_String out { &real.memory };
        out.append("x", Code_Span_Type::identifier);
        ctx.transitions++;
        ctx.compared++;
        auto r = bm::bmd::generate_code(out, *real.analyzed, d.language, options_of(d));
        if (!standard && !has_bitint(d)) {
            ctx.outcome("refused: width");
            if (r) fail("a width C does not have is accepted: " + std::string(out.get_text()));
            else if (r.error().code != bm::bmd::Generator_Error_Code::unsupported_integer_width) fail("a width C does not have gives error " + std::to_string(int(r.error().code)));
            else if (out.get_text() != "x" || out.get_length().span_count != 1) fail("failed generation changes the string");
            continue;
        }
        if (!r) { fail("generation fails with code " + std::to_string(int(r.error().code)) + (r.error().fail ? " at " + std::string(get_node_name(*r.error().fail)) : "")); continue; }
        bm::bmd::Code_String code { &real.memory };
        if (!bm::bmd::generate_code(code, *real.analyzed, d.language, options_of(d)) || "x" + std::string(code.get_text()) != out.get_text()) { fail("generation depends on what the string held before"); continue; }
        const std::string text(code.get_text());
        check_text(code, d, [&](std::string m) { fail("the generated text " + m + "\n" + text.substr(0, 1500)); });
        if (!standard && !bit_precise(d)) continue; // no installed compiler has both
        std::string c = d.language == Code_Language::cpp ? "#include <cassert>\n#include <cstdint>\n" : d.c23 ? "#include <assert.h>\n#include <stdint.h>\n" : "#include <assert.h>\n#include <stdbool.h>\n#include <stdint.h>\n";
        c += text;
        if (d.language == Code_Language::cpp) c += "extern \"C\" {\n";
        for (size_t i = 0; i < tested.size(); ++i) {
            const auto& f = *tested[i].f;
            const bool constant = f.n == ref::N::Const;
            if (constant && !d.c23) continue; // only C23 names constants
            auto wide = [](ref::Ty t) { return t.k == K::Uint && t.w > 64; };
            std::string args, types;
            if (!constant && f.c[1])
                for (size_t k = 0; k < f.c[1]->c.size(); ++k) {
                    const ref::Ty t = *f.c[1]->c[k]->c[0]->type;
                    const std::string a = "a[" + std::to_string(2 * k) + "]", ty = c_type(t, d);
                    types += (k ? ", " : "") + ty;
                    args += (k ? ", (" : "(") + ty + ")" + (wide(t) ? "((" + ty + ")a[" + std::to_string(2 * k + 1) + "] << 64 | " + a + ")" : a);
                }
            const ref::Ty rt = constant ? f.value->t : *f.c[2]->type;
            const std::string call = constant ? f.text : f.text + "(" + args + ")";
            if (constant && d.language == Code_Language::cpp) c += "static_assert(__is_same(decltype(" + f.text + "), const " + c_type(rt, d) + "), \"type of the constant\");\n";
            else if (constant) c += "_Static_assert(_Generic(&" + f.text + ", const " + c_type(rt, d) + "*: 1, default: 0), \"type of the constant\");\n";
            else if (d.language != Code_Language::cpp) c += c_type(rt, d) + " " + f.text + "(" + (types.empty() ? "void" : types) + ");\n";
            else c += c_type(rt, d) + " (*p_" + std::to_string(i) + ")(" + types + ") = " + f.text + ";\n";
            c += "void w_" + std::to_string(i) + "(const unsigned long long* a, unsigned long long* o) { (void)a; (void)o; ";
            if (rt.k == K::Void) c += call + ";";
            else if (wide(rt)) c += c_type(rt, d) + " r = " + call + "; o[0] = (unsigned long long)r; o[1] = (unsigned long long)(r >> 64);";
            else c += std::string("o[0] = (unsigned long long)") + (rt.k == K::Int ? "(long long)" : "") + call + "; o[1] = 0;";
            c += " }\n";
        }
        if (d.language == Code_Language::cpp) c += "}\n";
        const auto source = dir / "code.txt", library = dir / "code.so", log = dir / "log.txt";
        std::ofstream(source) << c;
        ctx.transitions++;
        if (!run_command(std::string(d.compile) + " " + source.string() + " -x none -O1 -w -shared -fPIC -fsanitize=undefined -fno-sanitize=vptr" + (std::string_view(d.compile).starts_with("clang") ? ",function" : "") + " -fsanitize-trap=undefined -o " + library.string() + " 2>" + log.string())) {
            std::ifstream in(log);
            std::stringstream s;
            s << in.rdbuf();
            std::string m = s.str();
            if (auto e = m.find("error:"); e != m.npos) m = m.substr(m.rfind('\n', e) == m.npos ? 0 : m.rfind('\n', e) + 1);
            fail("the generated code does not compile: " + m.substr(0, 700));
            continue;
        }
        void* handle = dlopen(library.c_str(), RTLD_NOW | RTLD_LOCAL);
        if (!handle) { fail(std::string("dlopen: ") + dlerror()); continue; }
        struct sigaction sa { }, old[4];
        sa.sa_handler = on_signal;
        sa.sa_flags = SA_NODEFER;
        const int signals[] = { SIGILL, SIGFPE, SIGTRAP, SIGABRT };
        for (int i = 0; i < 4; ++i) sigaction(signals[i], &sa, &old[i]);
        for (size_t i = 0; i < tested.size(); ++i) {
            if (tested[i].f->n == ref::N::Const && !d.c23) continue;
            auto* w = (void (*)(const ull*, ull*))dlsym(handle, ("w_" + std::to_string(i)).c_str());
            volatile size_t at = 0;
            std::string problem;
            if (int s = sigsetjmp(jump, 1)) problem = s == SIGILL ? "undefined behaviour" : "signal " + std::to_string(s);
            else {
                for (; at < tested[i].calls.size(); at = at + 1) {
                    const auto& k = tested[i].calls[at];
                    std::vector<ull> a(2 * k.args.size() + 2);
                    ull o[2] {};
                    for (size_t j = 0; j < k.args.size(); ++j) { a[2 * j] = ull(k.args[j].v); a[2 * j + 1] = ull(k.args[j].v >> 64); }
                    w(a.data(), o);
                    const auto want = k.want;
                    if (want.t.k == K::Void) continue;
                    const bool equal = o[0] == ull(want.v) && (want.t.k != K::Uint || o[1] == ull(want.v >> 64));
                    if (!equal) { problem = want.t.k == K::Int ? std::to_string((long long)o[0]) : ref::dec(ref::U128(o[1]) << 64 | o[0]); break; }
                }
            }
            ctx.transitions += at;
            ctx.compared += at;
            if (!problem.empty()) {
                std::string a;
                for (auto& v : tested[i].calls[at].args) a += (a.empty() ? "" : ", ") + ref::str(v);
                auto p = text.find(" " + tested[i].f->text + "(");
                if (auto q = text.rfind("\n" + std::string()); q != text.npos) for (auto z = p; (z = text.find(" " + tested[i].f->text + "(", z + 1)) != text.npos;) { auto e = text.find_first_of(";{", z); if (e != text.npos && text[e] == '{') { p = z; break; } }
                fail(tested[i].f->text + "(" + a + ") is " + problem + ", expected " + ref::str(tested[i].calls[at].want) + ": " + text.substr(p, 400));
                break;
            }
        }
        for (int i = 0; i < 4; ++i) sigaction(signals[i], &old[i], nullptr);
        dlclose(handle);
        ctx.outcome(std::string("ran: ") + d.name);
    }
}

// ---- suites --------------------------------------------------------------------------------

// Cases are a prelude and functions, separated by \x1f; those that are not valid are left out.
struct Batches : Suite {
    void check(std::string_view c, Ctx& ctx) override
    {
        Strings parts;
        for (size_t at = 0;;) {
            const size_t n = c.find('\x1f', at);
            parts.emplace_back(c.substr(at, n - at));
            if (n == c.npos) break;
            at = n + 1;
        }
        std::string whole = parts[0];
        for (size_t i = 1; i < parts.size(); ++i) {
            const bool ok = ref::Program(parts[0] + parts[i]).verdict == ref::Program::accepted;
            ctx.outcome(ok ? "valid function" : "invalid function");
            if (ok) whole += parts[i];
        }
        check_execution(whole, ctx);
    }
    unsigned hang_seconds() const override { return 240; }

    struct Collector {
        const Emit& emit;
        std::string prelude, batch;
        size_t size, count = 0;
        bool stopped = false;
        bool flush()
        {
            if (count && !stopped && !emit(prelude + batch)) stopped = true;
            batch.clear();
            count = 0;
            return !stopped;
        }
        bool add(const std::string& f)
        { // $n is the name
            batch += '\x1f';
            batch += fill(f, { { 'n', "f" + std::to_string(count) } });
            return ++count < size ? !stopped : flush();
        }
    };
};

// Parameters for the variables an expression mentions.
std::string parameters_of(const std::string& e, const std::string& width)
{
    std::string r;
    for (auto [name, type] : { std::pair<const char*, std::string> { "x", "Int" }, { "y", "Int" }, { "u", "Uint(" + width + ")" }, { "v", "Uint(" + width + ")" }, { "b", "Bool" }, { "c", "Bool" } }) {
        for (size_t i = 0; i < e.size(); ++i)
            if (e[i] == *name && (i == 0 || !ref::ident_char(e[i - 1])) && (i + 1 == e.size() || !ref::ident_char(e[i + 1]))) {
                r += (r.empty() ? "" : ", ") + std::string(name) + ": " + type;
                break;
            }
    }
    return r;
}

const char* const prelude_text = "const k0 = -5; const k1: Int = 3; const ku: Uint($w) = 1; const km: Uint($w) = $m; const kb = true;\n"
                                 "function h(u: Uint($w)) -> Uint($w) { return u; }\nfunction g(x: Int) -> Int { return x; }\n";
std::string prelude_for(const std::string& w) { return fill(prelude_text, { { 'w', w }, { 'm', ref::dec(ref::ones(std::stoi(w))) } }); }

template <typename F> bool expressions(bool full, const std::string& w, F&& f)
{ // f(type, expression)
    auto p = [](const std::string& s) { return "(" + s + ")"; };
    const std::string U = "Uint(" + w + ")";
    const Strings arith { "+", "-", "*", "/", "%" }, bits { "&", "|", "^", "<<", ">>" }, cmps { "==", "!=", "<", ">", "<=", ">=" };
    Strings allu = arith;
    allu.insert(allu.end(), bits.begin(), bits.end());
    const Strings i0 { "x", "y", "3", "k0", "k1" }, u0 { "u", "v", "ku", "km" }, b0 { "b", "c", "true", "kb" };
    Strings i1, u1, b1;
    auto bin = [&](Strings& to, const Strings& ops, const Strings& l, const Strings& r) { for (auto& a : l) for (auto& b : r) for (auto& o : ops) to.push_back(p(a) + o + p(b)); };
    auto cond = [&](Strings& to, const Strings& l, const Strings& c, const Strings& r) { for (auto& a : l) for (auto& k : c) for (auto& b : r) to.push_back(p(a) + "if" + p(k) + "else" + p(b)); };
    bin(i1, arith, i0, i0);
    cond(i1, i0, { "b" }, i0);
    for (auto& e : i0) for (auto s : { "-", "+" }) i1.push_back(s + e);
    for (auto& e : i0) { i1.push_back("g(" + e + ")"); u1.push_back(e + " as " + U); i1.push_back(e + " as Int"); u1.push_back("h(" + e + ")"); }
    bin(u1, allu, u0, u0);
    bin(u1, allu, i0, u0);
    bin(u1, allu, u0, i0);
    cond(u1, u0, { "b" }, u0);
    cond(u1, i0, { "b", "kb" }, u0);
    cond(u1, u0, { "b" }, i0);
    for (auto& e : u0) for (auto s : { "-", "+", "~" }) u1.push_back(s + e);
    for (auto& e : u0) { u1.push_back("h(" + e + ")"); u1.push_back(e + " as " + U); }
    bin(b1, cmps, i0, i0);
    bin(b1, cmps, u0, u0);
    bin(b1, cmps, i0, u0);
    bin(b1, cmps, u0, i0);
    bin(b1, { "==", "!=", "&&", "||" }, b0, b0);
    cond(b1, b0, { "b" }, b0);
    for (auto& e : b0) b1.push_back("!" + e);
    // constants on their own, large ones too
    for (auto& e : i0) if (!f("Int", e)) return false;
    for (auto& e : u0) if (!f(U, e)) return false;
    for (auto& e : b0) if (!f("Bool", e)) return false;
    for (auto e : { "127", "128", "255", "32767", "65535", "2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615", "0x80", "0b11", "0o17" }) {
        for (const std::string& c : Strings { "$e", "u & $e", "u + $e", "u * $e", "$e - u", "u - $e", "$e >> u", "u / $e", "$e", "$e as " + U, "h($e)", "$e if b else u", "~u ^ $e" })
            if (!f(U, fill(c, { { 'e', e } }))) return false;
        for (const std::string& c : Strings { "u == $e", "u < $e", "(u + 1) < $e", "(u - 1) >= $e", "(u * $e) == u", "(-u) > $e" }) if (!f("Bool", fill(c, { { 'e', e } }))) return false;
        for (const std::string& c : Strings { "$e", "x + $e", "-$e", "$e - x" }) if (!f("Int", fill(c, { { 'e', e } }))) return false;
    }
    for (auto& e : i1) if (!f("Int", e)) return false;
    for (auto& e : u1) if (!f(U, e)) return false;
    for (auto& e : b1) if (!f("Bool", e)) return false;
    // depth two, over one representative of each kind of operand
    Strings ir { "x", "3", "x + y", "x - 3", "x * y", "x / y", "-x", "y if b else x", "g(x)", "k0" };
    Strings ur { "u", "u + v", "u - v", "u * v", "u << 1", "1 << v", "u >> v", "~u", "-u", "u / v", "u & v", "1 if b else u", "x as " + U, "h(u)", "ku", "u + x", "x - u" };
    Strings br { "b", "u < v", "x == y", "!b", "b && c", "b || c", "c if b else true" };
    if (!full) {
        ir = { "x", "x - 3", "x * y", "-x", "y if b else x", "k0" };
        ur = { "u", "u + v", "u * v", "1 << v", "~u", "u & v", "1 if b else u", "x as " + U, "x - u" };
        br = { "b", "u < v", "!b", "b || c" };
    }
    Strings two;
    bin(two, arith, ir, ir); cond(two, ir, br, ir);
    for (auto& e : ir) for (auto s : { "-", "+" }) two.push_back(s + p(e));
    for (auto& e : ir) two.push_back(p(e) + " as Int");
    for (auto& e : two) if (!f("Int", e)) return false;
    two.clear();
    bin(two, allu, ur, ur); bin(two, allu, ir, { "u", "~u" }); bin(two, allu, { "u", "~u" }, ir); cond(two, ur, br, ur); cond(two, ir, { "b" }, ur);
    for (auto& e : ur) for (auto s : { "-", "+", "~" }) two.push_back(s + p(e));
    for (auto& e : ur) two.push_back(p(e) + " as " + U);
    for (auto& e : ir) two.push_back(p(e) + " as " + U);
    for (auto& e : two) if (!f(U, e)) return false;
    two.clear();
    bin(two, cmps, ir, ir); bin(two, cmps, ur, ur); bin(two, { "&&", "||", "==", "!=" }, br, br); cond(two, br, br, br);
    for (auto& e : br) two.push_back("!" + p(e));
    for (auto& e : two) if (!f("Bool", e)) return false;
    return true;
}

struct C_Expressions : Batches {
    const char* name() const override { return "c_expressions"; }
    const char* bound(Tier t) const override
    {
        return t == Tier::quick ? "every operator, conditional, conversion and call on all pairs of 5 Int, 4 Uint and 4 Bool leaves (variables, literals, constants) and 15 literals in 23 places, all trees of depth 2 over 6 Int, 9 Uint and 4 Bool operands, for Uint(8), Uint(16) and Uint(64); C99 with gcc and clang, C++20, C23, C23 with _BitInt; all argument tuples of the grid"
                                : "the same for Uint(8), Uint(16), Uint(32) and Uint(64), and for _BitInt also the widths 1, 7, 20, 31, 33, 63, 65 and 128; depth 2 over 10 Int, 17 Uint and 7 Bool operands";
    }
    void enumerate(Tier t, const Emit& emit) override
    {
        const bool q = t == Tier::quick;
        for (std::string w : q ? Strings { "16", "8", "64" } : Strings { "8", "16", "32", "64", "1", "7", "20", "31", "33", "63", "65", "128" }) {
            Collector c { emit, prelude_for(w), "", q ? 400u : 300u };
            auto type_of = [&](const std::string& ty, const std::string& e) { return c.add("function $n(" + parameters_of(e, w) + ") -> " + ty + " { return " + e + "; }\n"); };
            if (!expressions(!q, w, type_of) || !c.flush()) return;
        }
    }
};
Register<C_Expressions> c0;

struct C_Statements : Batches {
    const char* name() const override { return "c_statements"; }
    const char* bound(Tier t) const override
    {
        return t == Tier::quick ? "all function bodies of <=3 of 16 (4 of 9) statement openings, statements and closings (blocks, if/else/else-if chains, loops, declarations, assignments, calls), compiled and run as in c_expressions"
                                : "all function bodies of <=4 of 16 (5 of 10) items";
    }
    void enumerate(Tier t, const Emit& emit) override
    {
        Collector c { emit, prelude_for("8"), "", 500 };
        const Strings items { "{", "}", "if b {", "} else {", "} else if x == 1 {", "while w < 3 {", "let v = w * 2;", "const c = 7;", "w = w + 1;", "g(w);", "return w;", "break;", "continue;", "assert(b);", "let z: Uint(8);", "w = w - (1 if b else 2);" };
        for (size_t n = 0; n <= (t == Tier::quick ? 3u : 4u); ++n)
            if (!all_bodies(items, n, [&](std::string_view b) { return c.add("function $n(x: Int, b: Bool) -> Int { let w = 0; " + std::string(b) + " return w + 10; }\n"); })) return;
        if (t == Tier::quick) {
            const Strings few { "if b {", "} else {", "} else if x == 1 {", "while w < 3 {", "}", "w = w + 1;", "break;", "continue;", "return w;" };
            if (!all_bodies(few, 4, [&](std::string_view b) { return c.add("function $n(x: Int, b: Bool) -> Int { let w = 0; " + std::string(b) + " return w + 10; }\n"); })) return;
        }
        else {
            const Strings few { "if b {", "} else {", "} else if x == 1 {", "while w < 3 {", "}", "w = w + 1;", "break;", "continue;", "return w;", "let v = w * 2;" };
            if (!all_bodies(few, 5, [&](std::string_view b) { return c.add("function $n(x: Int, b: Bool) -> Int { let w = 0; " + std::string(b) + " return w + 10; }\n"); })) return;
        }
        c.flush();
    }
};
Register<C_Statements> c1;

struct C_Signatures : Batches {
    const char* name() const override { return "c_signatures"; }
    const char* bound(Tier) const override { return "functions of every result type without a parameter, with one and with two of every type of the standard widths, whose bodies return a literal, a parameter, or a variable"; }
    void enumerate(Tier, const Emit& emit) override
    {
        Collector c { emit, "", "", 100 };
        const Strings types { "Int", "Bool", "Uint(8)", "Uint(16)", "Uint(32)", "Uint(64)", "Void" };
        for (auto& r : types) {
            if (!c.add("function $n() -> " + r + " { " + (r == "Void" ? "" : r == "Bool" ? "return true; " : "return 1; ") + "}")) return;
            for (auto& a : types) {
                if (a == "Void") continue;
                if (!c.add("function $n(x: " + a + ") -> " + r + " { " + (r == "Void" ? "" : r == a ? "return x; " : r == "Bool" ? "return false; " : "return 2; ") + "}")) return;
                for (auto& b : types) if (b != "Void" && !c.add("function $n(x: " + a + ", y: " + b + ") -> " + r + " { " + (r == "Void" ? "return; " : r == b ? "let z = y; return z; " : r == a ? "let z: " + a + "; z = x; return z; " : r == "Bool" ? "return false; " : "return 2; ") + "}")) return;
            }
        }
        c.flush();
    }
};
Register<C_Signatures> c3;

struct C_Sizes : Suite {
    const char* name() const override { return "c_sizes"; }
    const char* bound(Tier t) const override { return t == Tier::quick ? "22 templates of programs with n repeated, nested or chained constructs for n of 0, 1, 2, 5, 9, 17, 33, 65, 129" : "22 templates of programs with n repeated, nested or chained constructs for n of 0..34, 63..66, 100, 127..130"; }
    unsigned hang_seconds() const override { return 120; }
    void enumerate(Tier t, const Emit& emit) override
    {
        auto S = [](int i) { return std::to_string(i); };
        auto each = [](int n, auto&& f, std::string sep = " ") { std::string r; for (int i = 0; i < n; ++i) { if (i) r += sep; r += f(i); } return r; };
        auto rep = [&](std::string t, int n) { return each(n, [&](int) { return t; }, ""); };
        std::vector<int> ns { 0, 1, 2, 5, 9, 17, 33, 65, 129 };
        if (t == Tier::thorough) { ns.clear(); for (int i = 0; i <= 130; ++i) if (i <= 34 || (i >= 63 && i <= 66) || i == 100 || i >= 127) ns.push_back(i); }
        const Strings u { "Uint(8)", "Uint(16)", "Uint(32)", "Uint(64)", "Int" };
        for (int n : ns) {
            const std::string N = S(n), M = S(n - 1);
            auto sum = [&](std::string p) { return each(n, [&](int i) { return "s = s * 3; s = s % 1009; s = s + " + p + S(i) + ";"; }); };
            for (auto& x : Strings {
                     each(n, [&](int i) { return "const c" + S(i) + " = " + S(i * 5 + 1) + ";"; }) + " function f(x: Int) -> Int { let s = x; " + sum("c") + " return s; }",
                     each(n, [&](int i) { return "const c" + S(i) + ": " + u[size_t(i % 4)] + " = " + S(i + 1) + ";"; }) + (n ? " function f() -> " + u[size_t((n - 1) % 4)] + " { return c" + M + "; }" : ""),
                     "function z(x: Int) -> Int { return x; } " + each(n, [&](int i) { return "function f" + S(i) + "(x: Int) -> Int { return " + (i ? "f" + S(i - 1) : std::string("z")) + "(x) + 1; }"; }),
                     each(n, [&](int i) { return "function f" + S(i) + "(x: Int) -> Int { return " + (i + 1 < n ? "f" + S(i + 1) + "(x) + 1" : std::string("x")) + "; }"; }),
                     "function f(" + each(n, [&](int i) { return "p" + S(i) + ": Int"; }, ", ") + ") -> Int { let s = 1; " + sum("p") + " return s; } function g(x: Int) -> Int { return f(" + each(n, [&](int i) { return i % 3 ? S(i) : std::string("x"); }, ", ") + "); }",
                     n ? "function f(" + each(n, [&](int i) { return "p" + S(i) + ": " + u[size_t(i % 5)]; }, ", ") + ") -> " + u[size_t((n - 1) % 5)] + " { return p" + M + "; }" : "",
                     "function f(x: Int) -> Int { " + each(n, [&](int i) { return "let v" + S(i) + " = " + (i ? "v" + S(i - 1) : "x") + " + 1;"; }) + " return " + (n ? "v" + M : "x") + "; }",
                     "function f(x: Int) -> Int { let s = x; " + each(n, [&](int i) { return "let v" + S(i) + ": Int;"; }) + each(n, [&](int i) { return "v" + S(n - 1 - i) + " = " + S(i) + ";"; }) + sum("v") + " return s; }",
                     "function f(x: Int) -> Int { let s = x; " + rep("s = s + 1; ", n) + "return s; }",
                     "function v() -> Void { } function f(x: Int) -> Int { " + rep("v(); ", n) + "return x; }",
                     "function f(x: Int) -> Int { " + rep("{ ", n) + "let y = x;" + rep(" }", n) + " return x; }",
                     "function f(x: Int) -> Int { " + rep("if x > 0 { ", n) + "return 5;" + rep(" }", n) + " return x; }",
                     "function f(x: Int) -> Int { let s = 0; " + each(n, [&](int i) { return "if x == " + S(i) + " { s = " + S(i + 100) + "; } else"; }) + " { s = 1; } return s; }",
                     "function f(x: Int) -> Int { let s = 0; " + each(n, [&](int i) { return "while s < " + S(i + 1) + " {"; }) + " s = s + 1; " + rep("if x > 3 { break; } } ", n) + "return s; }",
                     "function f(x: Int) -> Int { let i = 0; let s = 0; while i < " + N + " { i = i + 1; if i == x { continue; } s = s + i; } return s; }",
                     "function f(x: Uint(16)) -> Uint(16) { return " + rep("(", n) + "x" + rep(" - 1)", n) + "; }",
                     "function f(x: Uint(16)) -> Uint(16) { return " + rep("(1 - ", n) + "x" + rep(")", n) + "; }",
                     "function f(x: Uint(8), b: Bool) -> Bool { return (" + rep("~(", n) + "x" + rep(")", n) + " == x) == " + rep("!(", n) + "b" + rep(")", n) + "; }",
                     "function f(x: Int) -> Int { return " + each(n, [&](int i) { return S(i + 10) + " if x == " + S(i) + " else "; }, "") + "3; }",
                     "function f(x: Int) -> Int { return x + 1; } function g(x: Int) -> Int { return " + rep("f(", n) + "x" + rep(")", n) + "; }",
                     "function f(a: Bool) -> Bool { return " + rep("(a && ", n) + "true" + rep(")", n) + "; } function g(a: Bool) -> Bool { return " + rep("(", n) + "a" + rep(" || false)", n) + "; }",
                     "const " + rep("a", n) + "b = 1; function " + rep("a", n) + "c(" + rep("a", n) + "d: Int) -> Int { let " + rep("a", n) + "e = " + rep("a", n) + "d; return " + rep("a", n) + "e - " + rep("a", n) + "b; }" })
                if (!emit(x)) return;
        }
    }
    void check(std::string_view c, Ctx& ctx) override { check_execution(std::string(c), ctx); }
};
Register<C_Sizes> c4;

struct C_Programs : Suite {
    const char* name() const override { return "c_programs"; }
    const char* bound(Tier) const override { return "all orders of 4 declarations out of 5 groups (calls forwards, backwards and mutual recursion, constants of every type and scope, generic functions nobody calls, static assertions), 14 widths C does not have in 5 programs, calls of generic functions"; }
    void enumerate(Tier, const Emit& emit) override
    {
        const std::vector<Strings> groups {
            { "function f0(x: Int) -> Int { return f1(x) + f2(x, 1); }\n", "function f1(x: Int) -> Int { return x + 1; }\n", "function f2(x: Int, y: Int) -> Int { return f1(x) - f3(y); }\n", "function f3(x: Int) -> Int { return x * 2; }\n" },
            { "function even(x: Int) -> Bool { return true if x <= 0 else odd(x - 1); }\n", "function odd(x: Int) -> Bool { return false if x <= 0 else even(x - 1); }\n", "const k: Uint(8) = 200;\n", "function f(x: Uint(8)) -> Uint(8) { return x + k; }\n" },
            { "const n = 4;\n", "const m: Uint(64) = 0xFFFFFFFFFFFFFFFF;\n", "function f(x: Uint(64)) -> Uint(64) { return (x << n) ^ m; }\n", "static_assert(n == 4);\n" },
            { "function id(x: Uint(w)) -> Uint(w) { return x; }\n", "function f() -> Void { g(); }\n", "function g() -> Void { }\n", "const v = true;\n" },
            { "function p(b: Bool) -> Int { q(); if b { return 1; } else { q(); } return r(2) if b else r(3); }\n", "function q() -> Void { }\n", "function r(x: Int) -> Int { const z = -7; const y: Uint(16) = 9; let l: Uint(16) = y + 1; return x + z; }\n", "const t: Bool = 1 < 2;\n" },
        };
        for (auto& g : groups) {
            std::vector<int> order { 0, 1, 2, 3 };
            do {
                std::string s;
                for (int i : order) { s += g[size_t(i)]; if (!emit(s)) return; }
            } while (std::next_permutation(order.begin(), order.end()));
        }
        for (auto w : { 1, 2, 7, 9, 12, 15, 17, 31, 33, 63, 65, 100, 127, 128 }) {
            const std::string u = "Uint(" + std::to_string(w) + ")";
            for (auto& f : { "function f(x: $u) -> Int { return 1; }", "function f() -> $u { return 1; }", "function f() -> Int { let x: $u = 1; return 2; }", "function f(x: Int) -> Int { if (1 as $u) == 1 { return 3; } return 2; }", "function g() -> Int { return 1; } function f(x: $u) -> $u { return (x + 1) * x; }" })
                if (!emit(fill(f, { { 'u', u } }))) return;
        }
        for (auto& s : { "function id(x: Uint(w)) -> Uint(w) { return x; } function f(x: Uint(8)) -> Uint(8) { return id(x); }", "function f(x: Uint(8)) -> Uint(8) { id(x); return x; } function id(x: Uint(w)) -> Uint(w) { return x; }", "function id(x: Uint(w)) -> Int { return w; } function f(x: Uint(8), y: Int) -> Int { while y == 1 { return 3 + id(x); } return 1; }" })
            if (!emit(s)) return;
        // what only constants need is not called in C
        for (auto& s : { "function id(x: Uint(w)) -> Int { return w; } const k = id(1 as Uint(8)); function f(x: Int) -> Int { return x + k; }", "function id(x: Uint(w)) -> Int { return w; } function f(x: Int) -> Int { const k = id(1 as Uint(16)); static_assert(id(1 as Uint(16)) == 16); return x + k; }" })
            if (!emit(s)) return;
    }
    void check(std::string_view c, Ctx& ctx) override
    {
        const std::string s(c);
        Pipeline real(s);
        if (!real.ok()) { ctx.outcome("not accepted"); return; }
        if (s.find("id(x)") != s.npos) { // instances of generic functions are not generated
            for (auto& d : dialects) {
                bm::bmd::Code_String out { &real.memory };
                ctx.transitions++; ctx.compared++;
                auto r = bm::bmd::generate_code(out, *real.analyzed, d.language, options_of(d));
                ctx.outcome("generic call");
                if (r) ctx.fail(std::string("(") + d.name + ") code that calls a generic function is generated, but not the function: " + std::string(out.get_text()));
                else if (out.get_text_length()) ctx.fail("failed generation leaves text");
            }
            return;
        }
        check_execution(s, ctx);
    }
    unsigned hang_seconds() const override { return 120; }
};
Register<C_Programs> c2;
}
