// Decides one BMS program on the real pipeline against the reference implementation: verdict,
// diagnostic, syntax tree, constants, and every compiled function on an exhaustive argument grid.
#pragma once
#include "bms_common.hpp"
#include "refbms.hpp"
#include "common/diagnostics.hpp"
#include <sstream>

namespace verif {

// S-expression of the real syntax tree, in the notation of ref::sexp.
inline void real_sexp(const bm::bms::Parsed_Program& prog, bm::bms::astp::Handle h, std::string& out)
{
    using namespace bm::bms;
    if (h == astp::Handle::null) { out += "_"; return; }
    const astp::Some_Node& node = prog.get_node(h);
    auto put = [&](const char* name, std::string_view text, std::span<const astp::Handle> children) {
        out += '(';
        out += name;
        if (!text.empty()) { out += ' '; out += text; }
        for (auto c : children) { out += ' '; real_sexp(prog, c, out); }
        out += ')';
    };
    auto spell = [](Token_Type t) {
        for (auto& o : ref::operators) if (o.type == t) return o.text;
        return std::string_view("?");
    };
    visit([&]<typename T>(const T& n) {
        if constexpr (std::is_same_v<T, astp::Program>) put("Program", "", n.declarations);
        else if constexpr (std::is_same_v<T, astp::Function>) put("Function", n.name, n.get_children());
        else if constexpr (std::is_same_v<T, astp::Parameter_List>) put("Params", "", n.parameters);
        else if constexpr (std::is_same_v<T, astp::Parameter>) put("Param", n.name, n.get_children());
        else if constexpr (std::is_same_v<T, astp::Type>) put("Type", type_type_name(n.type), n.get_children());
        else if constexpr (std::is_same_v<T, astp::Const>) put("Const", n.name, n.get_children());
        else if constexpr (std::is_same_v<T, astp::Let>) put("Let", n.name, n.get_children());
        else if constexpr (std::is_same_v<T, astp::Static_Assert>) put("Static_Assert", "", n.get_children());
        else if constexpr (std::is_same_v<T, astp::Annotation_List>) put("Annotations", "", n.annotations);
        else if constexpr (std::is_same_v<T, astp::Annotation>) put("Annotation", n.name, n.arguments);
        else if constexpr (std::is_same_v<T, astp::Annotation_Argument>) {
            out += "(Argument ";
            out += n.key; out += '='; out += n.value; out += '#'; out += std::to_string(int(n.value_type)); out += ')';
        }
        else if constexpr (std::is_same_v<T, astp::If_Statement>) put("If", "", n.get_children());
        else if constexpr (std::is_same_v<T, astp::While_Statement>) put("While", "", n.get_children());
        else if constexpr (std::is_same_v<T, astp::Break>) put("Break", "", {});
        else if constexpr (std::is_same_v<T, astp::Continue>) put("Continue", "", {});
        else if constexpr (std::is_same_v<T, astp::Return_Statement>) put("Return", "", n.get_children());
        else if constexpr (std::is_same_v<T, astp::Assignment>) put("Assign", n.name, n.get_children());
        else if constexpr (std::is_same_v<T, astp::Block_Statement>) put("Block", "", n.statements);
        else if constexpr (std::is_same_v<T, astp::Conversion_Expression>) put("Conversion", "", n.get_children());
        else if constexpr (std::is_same_v<T, astp::If_Expression>) put("If_Expr", "", n.get_children());
        else if constexpr (std::is_same_v<T, astp::Binary_Expression>) put("Binary", spell(n.op), n.get_children());
        else if constexpr (std::is_same_v<T, astp::Prefix_Expression>) put("Prefix", spell(n.op), n.get_children());
        else if constexpr (std::is_same_v<T, astp::Function_Call_Expression>)
            put(n.is_statement ? "Call!" : "Call", n.function, n.arguments_and_annotations);
        else if constexpr (std::is_same_v<T, astp::Id_Expression>) put("Id", n.identifier, {});
        else if constexpr (std::is_same_v<T, astp::Literal>) put("Literal", n.literal, {});
    }, node);
}

inline std::string first_difference(const std::string& a, const std::string& b)
{
    size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
    size_t from = i < 30 ? 0 : i - 30;
    return "..." + a.substr(from, 80) + "... instead of ..." + b.substr(from, 80) + "...";
}

inline void check_syntax(std::string_view src, Ctx& ctx)
{
    auto ref = ref::ref_parse(src);
    Pipeline real(src, Pipeline::analyze);
    ctx.transitions += real.tokens.size();
    ctx.compared++;
    ctx.outcome(ref.lex_error ? "lexical error" : ref.syntax_error ? "syntax error" : "accepted");
    if (ref.lex_error != (real.stage == Pipeline::tokenize)) { ctx.fail("tokenizer verdict differs"); return; }
    if (ref.lex_error) return;
    bool real_ok = real.stage == Pipeline::analyze;
    if (real_ok == ref.syntax_error) {
        ctx.fail(real_ok ? "the parser accepts a program outside the grammar"
                         : "the parser rejects a program of the grammar at byte " + std::to_string(*real.error_begin));
        return;
    }
    if (!real_ok) {
        if (ref.error_at_end ? *real.error_begin < ref.error_last_end || *real.error_begin > src.size() : *real.error_begin != ref.error_pos)
            ctx.fail("syntax error reported at byte " + std::to_string(*real.error_begin)
                     + ", but the first misplaced token is at byte " + std::to_string(ref.error_pos));
        return;
    }
    std::string a, b;
    real_sexp(*real.parsed, real.parsed->get_root_handle(), a);
    ref::sexp(ref.root.get(), b);
    if (a != b) ctx.fail("wrong syntax tree: " + first_difference(a, b));
}

inline ref::Ty to_ref(bm::bms::Concrete_Type t) { return { ref::K(int(t.type())), t.width() }; }
inline ref::Val to_ref(const bm::bms::Concrete_Value& v) { return { to_ref(v.type), ref::U128(v.int_value) }; }
inline bm::bms::Concrete_Value to_real(ref::Val v)
{
    using namespace bm::bms;
    return { v.t.k == ref::K::Uint ? Concrete_Type::Uint(v.t.w) : Concrete_Type(Type_Type(int(v.t.k))), Big_Int(v.v) };
}
static_assert(int(bm::bms::Type_Type::Void) == int(ref::K::Void) && int(bm::bms::Type_Type::Bool) == int(ref::K::Bool)
              && int(bm::bms::Type_Type::Int) == int(ref::K::Int) && int(bm::bms::Type_Type::Uint) == int(ref::K::Uint));

// The argument grid of a type: all values of small types, boundary values of large ones.
inline std::vector<ref::Val> domain(ref::Ty t, bool wide = false)
{
    using ref::K;
    using ref::U128;
    std::vector<ref::Val> r;
    if (t.k == K::Bool) return { { t, 0 }, { t, 1 } };
    if (t.k == K::Void) return { { t, 0 } };
    if (t.k == K::Int) {
        for (int i : { 0, 1, -1, 2, 3, 5 }) r.push_back({ t, U128(ref::I128(i)) });
        if (wide) {
            for (int i : { 7, 8, 15, 16, 127, 128, 255, 256, -2, -7, -8, -128 }) r.push_back({ t, U128(ref::I128(i)) });
            for (int s : { 31, 62, 63, 64, 65, 126 })
                for (int d : { -1, 0, 1 }) { r.push_back({ t, (U128(1) << s) + U128(ref::I128(d)) }); r.push_back({ t, U128(0) - (U128(1) << s) + U128(ref::I128(d)) }); }
            r.push_back({ t, ref::ones(127) });
            r.push_back({ t, U128(1) << 127 });
            r.push_back({ t, (U128(1) << 127) + 1 });
        }
        return r;
    }
    if (t.w <= (wide ? 5 : 3)) {
        for (U128 v = 0; v <= ref::ones(t.w); ++v) r.push_back({ t, v });
        return r;
    }
    std::set<U128> s { 0, 1, 2, 3, U128(t.w - 1), U128(t.w), ref::ones(t.w), ref::ones(t.w) - 1, U128(1) << (t.w - 1), ref::ones(t.w - 1) };
    if (wide) {
        for (int k : { 4, 7, 8, 31, 32, 62, 63, 64, 65, 126, 127 })
            if (k < t.w) { s.insert(U128(1) << k); s.insert((U128(1) << k) - 1); s.insert((U128(1) << k) + 1); }
        s.insert(ref::ones(t.w) / 3);
        s.insert(ref::ones(t.w) / 3 * 2);
    }
    for (auto v : s) if (v <= ref::ones(t.w)) r.push_back({ t, v });
    return r;
}

struct Line_Column { size_t line, column; }; // zero-based; tabs count four columns, '\r' restarts
inline Line_Column position_of(std::string_view src, size_t begin)
{
    Line_Column r { 0, 0 };
    for (size_t i = 0; i < begin && i < src.size(); ++i) {
        switch (src[i]) {
        case '\n': ++r.line; r.column = 0; break;
        case '\r': r.column = 0; break;
        case '\t': r.column += 4; break;
        default: ++r.column;
        }
    }
    return r;
}

// A word which the message for an error cannot do without (alternatives are separated by |).
inline const std::vector<std::pair<std::string_view, std::vector<std::string_view>>>& key_words()
{
    static const std::vector<std::pair<std::string_view, std::vector<std::string_view>>> t {
        { "failed_to_define_global_const", { "const" } }, { "failed_to_define_function", { "function" } }, { "failed_to_define_parameter", { "parameter" } }, { "failed_to_define_variable", { "variable" } },
        { "reference_to_undefined_variable", { "defined|declared" } }, { "assignment_of_undefined_variable", { "assign", "defined|declared" } }, { "call_to_undefined_function", { "function", "defined|declared" } },
        { "width_not_integer", { "width", "int" } }, { "width_invalid", { "width" } }, { "let_variable_in_constant_expression", { "variable", "constant" } }, { "parameter_in_constant_expression", { "parameter", "constant" } },
        { "function_in_expression", { "function" } }, { "condition_not_bool", { "condition", "bool" } }, { "invalid_integer_literal", { "literal" } }, { "assigning_parameter", { "assign", "parameter" } },
        { "assigning_function", { "assign", "function" } }, { "assigning_const", { "assign", "const" } }, { "call_non_function", { "call", "function" } }, { "wrong_number_of_arguments", { "argument" } },
        { "width_deduction_from_non_uint", { "deduc", "uint" } }, { "static_assert_expression_not_bool", { "static", "assert", "bool" } }, { "static_assertion_failed", { "static", "assert", "fail" } },
        { "requires_clause_not_bool", { "requires", "bool" } }, { "requires_clause_not_satisfied", { "requires", "satisfied" } }, { "use_of_undefined_variable", { "variable", "undefined" } }, { "use_of_undefined_constant", { "const", "undefined" } },
        { "empty_return_in_non_void_function", { "return", "void" } }, { "void_operation", { "void" } }, { "bool_arithmetic", { "arithmetic", "bool" } }, { "bool_bitwise", { "bitwise", "bool" } },
        { "bool_relational_comparison", { "relational|comparison", "bool" } }, { "int_bitwise", { "bitwise", "'int'" } }, { "int_logical", { "logical", "'int'" } }, { "uint_logical", { "logical", "uint" } },
        { "non_bool_logical", { "logical", "bool" } }, { "incompatible_types", { "type|return" } }, { "incompatible_widths", { "width" } }, { "wrong_argument_type", { "argument", "type" } },
        { "break_outside_loop", { "break", "loop" } }, { "continue_outside_loop", { "continue", "loop" } }, { "annotation_unknown", { "annotation", "unknown" } }, { "annotation_not_applicable", { "annotation", "appli" } },
        { "annotation_too_many_arguments", { "many", "argument" } }, { "annotation_unknown_parameter", { "parameter" } }, { "annotation_argument_duplicate", { "twice|duplicate|once|again" } },
        { "annotation_argument_wrong_type", { "type" } }, { "annotation_argument_wrong_value", { "value" } }, { "annotation_missing_argument", { "missing", "argument" } },
        { "evaluation_error", { "evaluat" } }, { "execution_error", { "execut" } },
        { ":division_by_zero", { "zero" } }, { ":shift_too_much", { "shift" } }, { ":assertion_fail", { "assert|comparison" } }, { ":int_to_uint_range_error", { "conver" } }, { ":int_overflow", { "large|overflow|represent" } },
        { ":load_uninitialized", { "uninitialized" } }, { ":infinite_loop", { "infinite|endless|terminat" } },
    };
    return t;
}

// The notes of a diagnostic have to lead to what the program was rejected for.
inline void check_notes(std::string_view src, const ref::Program& ref, const Pipeline& real, Ctx& ctx)
{
    std::ostringstream out;
    bm::print_analysis_error(out, *real.parsed, *real.analysis_error, false);
    std::vector<std::string> notes;
    std::istringstream in(out.str());
    for (std::string l; std::getline(in, l);)
        if (l.find(": note: ") != l.npos && l.find(" | ") == l.npos) notes.push_back(l);
    ctx.compared++;
    {
        const size_t colon = ref.error.find(':');
        const std::string code = ref.error.substr(0, colon), reason = colon == ref.error.npos || notes.empty() ? "" : ref.error.substr(colon);
        std::string message = colon == ref.error.npos ? out.str().substr(0, out.str().find('\n')) : out.str(), shown;
        std::istringstream all(message);
        message.clear();
        for (std::string l; std::getline(all, l);)
            if (l.find(" | ") == l.npos) { shown += l + "\n"; for (char ch : l) message += ch >= 'A' && ch <= 'Z' ? char(ch | 32) : ch; }
        for (auto& [k, words] : key_words()) {
            if (k != code && k != reason) continue;
            for (std::string_view w : words) {
                bool found = false;
                for (size_t b = 0; b <= w.size();) {
                    const size_t e = std::min(w.find('|', b), w.size());
                    found |= message.find(w.substr(b, e - b)) != message.npos;
                    b = e + 1;
                }
                if (!found) ctx.fail("the message for " + std::string(k) + " does not speak of '" + std::string(w) + "':\n" + shown);
            }
        }
    }
    std::vector<ref::Cause> want;
    const ref::Cause self { true, ref.error_pos };
    if (ref.error.starts_with("execution_error") || ref.error == "annotation_argument_wrong_type" || ref.error == "annotation_argument_wrong_value") want.push_back(self);
    if (ref.cause.any) want.push_back(ref.cause);
    bool ok = notes.size() == want.size();
    std::string wanted;
    for (size_t i = 0; i < want.size(); ++i) {
        const auto p = position_of(src, want[i].pos);
        const bool there = want[i].pos != ref::Cause::nowhere;
        const std::string head = there ? "case.bms:" + std::to_string(p.line + 1) + ":" + std::to_string(p.column + 1) + ": note: " : "(internal): note: ";
        wanted += "\n  " + head + (there ? "" : "... '" + want[i].name + "' ...");
        ok = ok && notes[i].starts_with(head) && (there || notes[i].find("'" + want[i].name + "'") != std::string::npos);
    }
    if (!ok) ctx.fail("the notes of the diagnostic should be" + wanted + "\nin\n" + out.str());
}

struct Check_Options {
    bool wide = false; // argument grids
    size_t max_tuples = 100000;
    bool run = true;
    bool causes = false; // only compares what diagnostics and run-time errors name as their cause
    bool skip_large = false; // functions with too many arguments are only analyzed
};

inline void check_program(std::string_view src, Ctx& ctx, Check_Options opt = {})
{
    using namespace bm::bms;
    auto differs = [&](const std::string& m) { if (!opt.causes) ctx.fail(m); };
    ref::Program ref(src);
    if (ref.verdict == ref::Program::undetermined) { ctx.outcome("skipped: constant evaluation does not terminate"); return; }
    ctx.compared++;
    Pipeline real(src);
    ctx.transitions += real.tokens.size();
    const bool ref_ok = ref.verdict == ref::Program::accepted;
    ctx.outcome(ref_ok ? "accepted" : ref.verdict == ref::Program::rejected ? ref.error : "syntax error");
    std::string want = ref_ok ? "accepted" : ref.verdict == ref::Program::rejected ? "rejected: " + ref.error : "syntax error";
    std::string got = real.ok() ? "accepted" : real.stage == Pipeline::analyze ? "rejected: " + real.error : "syntax error";
    if (want != got) { differs("program is " + got + ", but should be " + want); return; }
    if (!real.ok()) {
        if (real.stage == Pipeline::analyze && !real.error_begin) differs("diagnostic " + real.error + " has no source position");
        else if (real.stage == Pipeline::analyze && *real.error_begin != ref.error_pos) differs("diagnostic " + real.error + " points at byte " + std::to_string(*real.error_begin) + " instead of " + std::to_string(ref.error_pos));
        else if (opt.causes && real.analysis_error) check_notes(src, ref, real, ctx);
        return;
    }
    // global constants
    for (auto& d : ref.parsed.root->c) {
        if (d->n != ref::N::Const) continue;
        auto v = real.const_value(d->text);
        ctx.compared++;
        if (!v) differs("constant " + d->text + " has no value");
        else if (to_ref(*v) != *d->value) differs("constant " + d->text + " is " + ref::str(to_ref(*v)) + ", expected " + ref::str(*d->value));
    }
    if (!opt.run) return;
    // functions
    auto run_function = [&](ref::Node* rf, const ast::Function& f) {
        if (f.vm_address == ast::Function::invalid_vm_address) return;
        std::vector<std::vector<ref::Val>> dom;
        size_t tuples = 1;
        if (rf->c[1]) for (auto& p : rf->c[1]->c) { dom.push_back(domain(*p->c[0]->type, opt.wide)); tuples = std::min<size_t>(tuples * dom.back().size(), 1 << 20); }
        if (tuples > opt.max_tuples && opt.skip_large) return;
        if (tuples > opt.max_tuples) { differs("argument grid too large"); return; }
        std::vector<size_t> ix(dom.size(), 0);
        while (true) {
            std::vector<ref::Val> ra;
            std::vector<Concrete_Value> aa;
            for (size_t i = 0; i < dom.size(); ++i) { ra.push_back(dom[i][ix[i]]); aa.push_back(to_real(ra.back())); }
            auto want = ref.run(rf, ra);
            if (want.kind == want.undetermined) ctx.outcome("run: does not terminate");
            auto got = real.run(f, aa, want.kind == want.undetermined ? 2000 : 100 + 50 * want.steps);
            ctx.transitions += got.steps;
            ctx.compared++;
            std::string w = want.kind == want.value ? ref::str(want.v) : want.kind == want.error ? "error " + want.code : "no termination";
            std::string g = got.kind == Run::value ? ref::str(to_ref(got.result))
                : got.kind == Run::error ? "error " + got.error_code
                : got.kind == Run::steps_exceeded ? "no termination" : got.error_code;
            if (opt.causes && w == g && want.kind == want.error) {
                ctx.outcome("run: position of an error");
                if (!got.error_begin) ctx.fail("error " + want.code + " of " + rf->text + " has no position");
                else if (*got.error_begin != want.at) ctx.fail("error " + want.code + " of " + rf->text + " is said to be at byte " + std::to_string(*got.error_begin) + " instead of " + std::to_string(want.at));
            }
            if (want.kind != want.undetermined) ctx.outcome(want.kind == want.value ? "run: value" : "run: " + w);
            if (w != g) {
                std::string a;
                for (auto& v : ra) a += (a.empty() ? "" : ", ") + ref::str(v);
                differs(rf->text + "(" + a + ") is " + g + ", expected " + w);
                return;
            }
            size_t k = ix.size();
            while (k > 0) {
                if (++ix[k - 1] < dom[k - 1].size()) break;
                ix[--k] = 0;
            }
            if (k == 0) break;
        }
    };
    for (auto& d : ref.parsed.root->c) {
        if (d->n != ref::N::Function) continue;
        const ast::Function* f = real.function(d->text);
        if (!f) { differs("function " + d->text + " is missing"); continue; }
        if (f->is_generic != d->generic) { differs("function " + d->text + (d->generic ? " should be generic" : " should not be generic")); continue; }
        if (!d->generic) { run_function(d.get(), *f); continue; }
        if (f->instances.size() != d->instances.size()) {
            differs("function " + d->text + " has " + std::to_string(f->instances.size()) + " instances, expected " + std::to_string(d->instances.size()));
            continue;
        }
        for (auto& [w, inst] : d->instances) {
            const ast::Function* fi = nullptr;
            for (auto& x : f->instances)
                if (std::vector<int>(x.widths.begin(), x.widths.end()) == w) fi = get_if<ast::Function>(x.handle);
            if (!fi) { differs("an instance of " + d->text + " is missing"); continue; }
            run_function(inst.get(), *fi);
        }
    }
}

} // namespace verif
