// Runs everything the library offers on one BMS source text: the pipeline, every diagnostic and dump,
// every compiled function, every code generator.  Decides totality (nothing throws, crashes or runs
// away) and that rendered diagnostics describe the error they were made from.
#pragma once
#include "bms_check.hpp"
#include <sstream>

#include "bmd/codegen/code_language.hpp"
#include "bmd/codegen/code_string.hpp"
#include "bmd/codegen/codegen.hpp"
#include "common/diagnostics.hpp"

namespace verif {

inline std::string line_of(std::string_view src, size_t line)
{
    size_t b = 0;
    while (line--) b = src.find('\n', b) + 1;
    return std::string(src.substr(b, src.find('\n', b) - b));
}
inline std::string strip_ansi(const std::string& s)
{
    std::string r;
    for (size_t i = 0; i < s.size(); ++i) {
        if (s[i] != '\x1b') { r += s[i]; continue; }
        while (i < s.size() && s[i] != 'm') ++i;
    }
    return r;
}
inline std::vector<std::string> lines_of(const std::string& s)
{
    std::vector<std::string> r;
    std::istringstream in(s);
    for (std::string l; std::getline(in, l);) r.push_back(l);
    return r;
}

// The rendering of a diagnostic whose primary position is byte `begin` of src.
inline void check_rendering(std::string_view src, const std::string& plain, const std::string& colored, std::optional<size_t> begin, Ctx& ctx, bool& internal)
{
    ctx.compared++;
    if (src.find('\x1b') == src.npos && plain.find('\x1b') != plain.npos) return ctx.fail("diagnostic without colors contains escape sequences: " + plain);
    if (src.find('\x1b') == src.npos && strip_ansi(colored) != plain) return ctx.fail("diagnostics with and without colors differ: " + plain);
    if (plain.empty() || plain.back() != '\n') return ctx.fail("diagnostic is not terminated: " + plain);
    auto ls = lines_of(plain);
    size_t i = 0;
    bool first = true;
    internal = false;
    while (i < ls.size()) {
        if (ls[i].starts_with("This is an internal error.")) { internal = true; i += 2; continue; }
        // FILE:LINE:COLUMN: (error|note): message
        const bool is_error = ls[i].find(": error: ") != std::string::npos, is_note = ls[i].find(": note: ") != std::string::npos;
        if (is_error != first || is_note == first) return ctx.fail("unexpected line in diagnostic: " + ls[i]);
        if (ls[i].starts_with("(internal): ")) {
            if (first && begin) return ctx.fail("diagnostic lacks its position: " + ls[i]);
            first = false;
            ++i;
            continue;
        }
        size_t l = 0, c = 0;
        if (std::sscanf(ls[i].c_str(), "case.bms:%zu:%zu: ", &l, &c) != 2 || !l || !c) return ctx.fail("diagnostic has no position: " + ls[i]);
        if (first && begin) {
            auto p = position_of(src, *begin);
            if (l != p.line + 1 || c != p.column + 1)
                return ctx.fail("diagnostic of byte " + std::to_string(*begin) + " is rendered at " + std::to_string(l) + ":" + std::to_string(c));
        }
        first = false;
        const std::string message = ls[i].substr(ls[i].find(is_error ? ": error: " : ": note: ") + (is_error ? 9 : 8));
        if (message.empty()) return ctx.fail("diagnostic has no message: " + ls[i]);
        ++i;
        if (i == ls.size() || (ls[i].find(" | ") == std::string::npos)) continue; // no affected line
        char head[40];
        std::snprintf(head, sizeof head, "%5zu | ", l);
        if (ls[i] != head + line_of(src, l - 1)) return ctx.fail("diagnostic shows the wrong line: '" + ls[i] + "' instead of '" + head + line_of(src, l - 1) + "'");
        ++i;
        if (i == ls.size() || ls[i] != "      | "  + std::string(c - 1, ' ') + "^")
            if (i == ls.size() || ls[i] != std::string(5, ' ') + " | " + std::string(c - 1, ' ') + "^") return ctx.fail("diagnostic marks the wrong column: " + (i < ls.size() ? ls[i] : ""));
        ++i;
    }
    if (first) ctx.fail("diagnostic is empty");
}

// What a dump of the tree has to say.
inline void expected_dump(std::string& out, const bm::bms::Parsed_Program& p, bm::bms::astp::Handle h, std::string_view name, int level, int width)
{
    out += std::string(size_t(level * width), ' ');
    const bool null = h == bm::bms::astp::Handle::null;
    if (!null) out += std::to_string(size_t(h)) + ":";
    if (!name.empty()) out += std::string(name) + "=";
    if (null) { out += "null\n"; return; }
    const auto& n = p.get_node(h);
    out += std::string(get_node_name(n)) + "(" + std::string(p.extract(get_source_position(n))) + ")\n";
    size_t i = 0;
    for (auto c : get_children(n)) {
        expected_dump(out, p, c, visit([&](auto& x) -> std::string_view { if constexpr (requires { x.child_names; }) return x.child_names[i]; else return ""; }, n), level + 1, width);
        ++i;
    }
}

// What a dump of compiled code has to say, apart from the width of the columns.
inline std::string expected_instruction(const bm::bms::Instruction& instruction)
{
    using namespace bm::bms;
    auto offset = [](auto o) { return (o < 0 ? "" : "+") + std::to_string(o); };
    auto pointer = [](const void* p) { std::ostringstream o; o << p; return o.str(); };
    auto name = [](const ins::detail::Base& i) { return i.debug_info.name.empty() ? std::string() : " ; " + std::string(i.debug_info.name); };
    auto type = [](Concrete_Type t) -> std::string {
        return t == Concrete_Type::Void ? "Void" : t == Concrete_Type::Bool ? "Bool" : t == Concrete_Type::Int ? "Int" : "Uint(" + std::to_string(t.width()) + ")";
    };
    auto value = [](Concrete_Value v) -> std::string {
        if (v.type == Concrete_Type::Void) return "Void";
        if (v.type == Concrete_Type::Bool) return v.int_value ? "true" : "false";
        const bool minus = v.type == Concrete_Type::Int && v.int_value < 0;
        unsigned __int128 n = (unsigned __int128) v.int_value;
        if (minus) n = -n;
        std::string r;
        do r.insert(r.begin(), char('0' + int(n % 10))); while (n /= 10);
        return (minus ? "-" : "") + r;
    };
    auto op = [](Expression_Type e) -> std::string {
        using enum Expression_Type;
        switch (e) {
        case equals: return "=="; case not_equals: return "!="; case less_than: return "<"; case greater_than: return ">"; case less_or_equal: return "<="; case greater_or_equal: return ">=";
        case binary_plus: case unary_plus: return "+"; case binary_minus: case unary_minus: return "-"; case multiplication: return "*"; case division: return "/"; case remainder: return "%";
        case shift_left: return "<<"; case shift_right: return ">>"; case bitwise_and: return "&"; case bitwise_or: return "|"; case bitwise_xor: return "^"; case logical_not: return "!"; case bitwise_not: return "~";
        case logical_and: return "&&"; case logical_or: return "||";
        default: return "?";
        }
    };
    if (auto* i = get_if<ins::Load>(&instruction)) return "load " + pointer(i->source) + name(*i);
    if (auto* i = get_if<ins::Store>(&instruction)) return "store " + pointer(i->target) + name(*i);
    if (auto* i = get_if<ins::Undefine>(&instruction)) return "undefine " + pointer(i->target) + name(*i);
    if (auto* i = get_if<ins::Push>(&instruction)) return "push " + value(i->value);
    if (get_if<ins::Pop>(&instruction)) return "pop";
    if (auto* i = get_if<ins::Relative_Jump>(&instruction)) return "jump " + offset(i->offset);
    if (auto* i = get_if<ins::Relative_Jump_If>(&instruction)) return std::string("if ") + (i->expected ? "true" : "false") + " jump " + offset(i->offset);
    if (get_if<ins::Break>(&instruction)) return "break";
    if (get_if<ins::Continue>(&instruction)) return "continue";
    if (get_if<ins::Return>(&instruction)) return "return";
    if (auto* i = get_if<ins::Convert>(&instruction)) return "convert to " + type(i->type);
    if (auto* i = get_if<ins::Unary_Operate>(&instruction)) return "unary " + op(i->op);
    if (auto* i = get_if<ins::Binary_Operate>(&instruction)) return "binary " + op(i->op);
    if (auto* i = get_if<ins::Call>(&instruction)) return "call " + std::to_string(i->address);
    return "call builtin assert";
}
inline std::string squeeze(const std::string& s)
{ // blanks at the end removed, others single
    std::string r;
    for (char c : s) if (c != ' ' || (!r.empty() && r.back() != ' ')) r += c;
    while (!r.empty() && r.back() == ' ') r.pop_back();
    return r;
}

struct Total_Options { bool codegen = true; bool strict_internal = true; };

inline void check_total(std::string_view source, Ctx& ctx, Total_Options opt = {})
{
    using namespace bm::bms;
    const std::string src(source); // exactly sized, so that reads past the end are seen
    std::unique_ptr<char[]> exact(new char[src.size()]);
    std::memcpy(exact.get(), src.data(), src.size());
    const std::string_view text(exact.get(), src.size());
    std::pmr::unsynchronized_pool_resource memory;
    std::pmr::vector<Token> tokens(&memory);
    ctx.transitions++;
    auto render = [&](auto&& print, std::optional<size_t> begin) {
        std::ostringstream a, b;
        print(a, false);
        print(b, true);
        bool internal = false;
        check_rendering(text, a.str(), b.str(), begin, ctx, internal);
        if (internal && opt.strict_internal) ctx.fail("a program error is reported as an internal error: " + a.str());
        return a.str();
    };
    if (auto r = tokenize(tokens, text); !r) {
        ctx.outcome("lexical error");
        render([&](auto& o, bool c) { bm::print_tokenize_error(o, "case.bms", text, r.error(), c); }, r.error().pos.begin);
        return;
    }
    std::ostringstream dump;
    bm::print_tokens(dump, tokens, text);
    if (lines_of(dump.str()).size() < tokens.size()) ctx.fail("token dump is incomplete");
    Parsed_Program parsed(text, &memory);
    if (auto r = parse(parsed, tokens); !r) {
        ctx.outcome("syntax error");
        render([&](auto& o, bool c) { bm::print_parse_error(o, "case.bms", text, r.error(), c); }, r.error().fail_token.pos.begin);
        return;
    }
#ifdef VERIF_SAN // what dumps contain is checked in the other variant
    std::ostringstream tree;
    bm::print_ast(tree, parsed, { .indent_width = int(text.size() % 4), .colors = text.size() / 4 % 2 != 0 });
#else
    for (int width : { 2, 0, 3 }) {
        std::ostringstream plain, colored;
        bm::print_ast(plain, parsed, { .indent_width = width, .colors = false });
        bm::print_ast(colored, parsed, { .indent_width = width, .colors = true });
        std::string wanted;
        expected_dump(wanted, parsed, parsed.get_root_handle(), "", 0, width);
        if (plain.str() != wanted) ctx.fail("the tree dump is\n" + plain.str() + "instead of\n" + wanted);
        if (text.find('\x1b') == text.npos && strip_ansi(colored.str()) != wanted) ctx.fail("tree dumps with and without colors differ");
    }
#endif
    Analyzed_Program analyzed(parsed, "case.bms", &memory);
    if (auto r = analyze(analyzed, parsed, &memory); !r) {
        ctx.outcome(error_name(r.error()));
        std::optional<size_t> begin;
        if (auto p = r.error().fail_pos()) begin = p->begin;
        render([&](auto& o, bool c) { bm::print_analysis_error(o, parsed, r.error(), c); }, begin);
        return;
    }
    ctx.outcome("accepted");
    auto& vm = analyzed.get_vm();
    std::ostringstream code_dump;
    dump_program(code_dump, vm.instructions());
    if (code_dump.str().find('\n') != std::string::npos || !vm.instructions().empty()) {
        const auto ls = lines_of(code_dump.str());
        if (ls.size() != vm.instructions().size()) ctx.fail("the dump of " + std::to_string(vm.instructions().size()) + " instructions has " + std::to_string(ls.size()) + " lines");
        else
            for (size_t i = 0; i < ls.size(); ++i)
                if (squeeze(ls[i]) != expected_instruction(vm.instructions()[i])) ctx.fail("instruction " + std::to_string(i) + " is shown as '" + ls[i] + "', not as '" + expected_instruction(vm.instructions()[i]) + "'");
    }
    auto run = [&](const ast::Function& f) {
        if (f.vm_address == ast::Function::invalid_vm_address) return;
        for (int k = 0; k < 3; ++k) {
            vm.reset();
            vm.jump_to(f.vm_address);
            for (auto& p : f.get_parameters()) {
                auto d = domain(to_ref(p.get_type().const_value()->get_type()));
                vm.push(to_real(d[size_t(k) % d.size()]));
            }
            for (int n = 0; n < 150; ++n) {
                ++ctx.transitions;
                auto r = vm.cycle();
                if (r) continue;
                using enum Execution_Error_Code;
                if (r.error().code != evaluation && r.error().code != load_uninitialized && r.error().code != pop_call)
                    ctx.fail("compiled code is malformed: " + std::string(execution_error_code_name(r.error().code)));
                break;
            }
        }
    };
    for (auto* n : ast::get_children(*analyzed.get_root()))
        if (auto* f = get_if<ast::Function>(n)) {
            if (!f->is_generic) run(*f);
            for (auto& i : f->instances) if (auto* g = get_if<ast::Function>(i.handle)) run(*g);
        }
    if (!opt.codegen) return;
    for (auto language : { bm::bmd::Code_Language::bms, bm::bmd::Code_Language::c, bm::bmd::Code_Language::cpp }) {
        bm::bmd::Code_String out(&memory);
        auto r = bm::bmd::generate_code(out, analyzed, language, {});
        ctx.outcome(r ? "generated" : "not generated");
    }
}

} // namespace verif
