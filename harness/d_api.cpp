// C31: the ways in which the library can be asked for the same thing agree.
#include "bms_suite.hpp"

#include "bms/annotation.hpp"
#include "bms/basic_diagnostic_consumer.hpp"
#include "bms/deduction.hpp"
#include "bms/evaluation/builtin_function.hpp"
#include "bms/evaluation/operations.hpp"
#include "bms/instantiate.hpp"
#include "bms/parsing/grammar.hpp"
#include "bms/vm/codegen.hpp"
#include "bmd/codegen/code_language.hpp"
#include "bmd/codegen/code_string.hpp"
#include "bmd/codegen/codegen.hpp"
#include "bmd/directive_type.hpp"

#include <sstream>

using namespace verif;
namespace {
using namespace bm::bms;

// ---- texts of results ----------------------------------------------------------------------

std::string text(const bm::Local_Source_Span& p)
{
    return std::to_string(p.line) + ":" + std::to_string(p.column) + "@" + std::to_string(p.begin) + "+" + std::to_string(p.length);
}
std::string text(const std::optional<bm::Source_Position>& p)
{
    return p ? std::to_string(p->line) + ":" + std::to_string(p->column) + "@" + std::to_string(p->begin) + " in " + std::string(p->file_name) : "nowhere";
}
std::string text(const Debug_Info& d) { return std::to_string(int(d.construct)) + " " + text(d.pos) + " '" + std::string(d.name) + "'"; }
std::string text(const Concrete_Value& v) { return str(v); }
std::string text(const Value& v) { return v.is_known() ? str(v.concrete_value()) : "?:" + str(v.get_type()); }
std::string text(Concrete_Type t) { return str(t); }
std::string text(Evaluation_Error_Code c) { return std::string(evaluation_error_code_name(c)); }
std::string text(Analysis_Error_Code c) { return std::string(analysis_error_code_name(c)); }
std::string text(const Token& t) { return std::string(token_type_name(t.type)) + " " + std::to_string(t.pos.line) + ":" + std::to_string(t.pos.column) + "@" + std::to_string(t.pos.begin) + "+" + std::to_string(t.pos.length); }
std::string text(const Tokenize_Error& e) { return std::to_string(int(e.code)) + " at " + std::to_string(e.pos.line) + ":" + std::to_string(e.pos.column) + "@" + std::to_string(e.pos.begin); }
std::string text(const Parse_Error& e)
{
    std::string r = std::string(grammar_rule_name(e.fail_rule)) + " at " + text(e.fail_token) + " expected";
    for (auto t : e.expected_tokens) r += " " + std::string(token_type_name(t));
    return r;
}
std::string text(const Analysis_Error& e)
{
    std::string r = error_name(e) + " fail " + text(e.fail());
    if (e.cause()) r += " cause " + text(*e.cause());
    if (e.type()) r += " type " + text(*e.type());
    if (e.value()) r += " value " + text(*e.value());
    if (auto c = e.comparison_failure()) r += " comparison " + text(c->left) + " " + std::to_string(int(c->op)) + " " + text(c->right);
    if (auto w = e.wrong_argument()) r += " argument " + std::string(w->name) + " " + std::to_string(int(w->expected)) + " " + std::to_string(int(w->actual)) + " " + std::string(w->value_constraints);
    return r;
}
template <typename T, typename E> std::string text(const bm::Result<T, E>& r)
{
    if (r) return text(*r);
    return "error " + text(r.error());
}

// ---- consumers of diagnostics ---------------------------------------------------------------

// Records what it is told, in order.
struct Recorder final : Diagnostic_Consumer {
    std::vector<std::string> seen;
    void operator()(Tokenize_Error&& e) override { seen.push_back("tokenize " + text(e)); }
    void operator()(Parse_Error&& e) override { seen.push_back("parse " + text(e)); }
    void operator()(Analysis_Error&& e) override { seen.push_back("analyze " + text(e)); }
    std::size_t error_count() const noexcept override { return seen.size(); }
    void clear() noexcept override { seen.clear(); }
};

// One stage, asked for with a consumer: exactly the error that the other form returns, and `true` without one.
template <typename F>
bool stage(Ctx& ctx, const char* name, const std::string& expected, Diagnostic_Consumer& consumer, F&& said)
{
    ++ctx.compared;
    const bool want = expected.empty();
    if (consumer.ok() != (consumer.error_count() == 0)) ctx.fail(std::string(name) + ": ok() and error_count() disagree");
    if (consumer.ok() != want) ctx.fail(std::string(name) + ": " + std::to_string(consumer.error_count()) + " errors consumed where the result is " + (want ? "success" : expected));
    std::string got = said();
    if (got != (want ? "" : std::string(name) + " " + expected)) ctx.fail(std::string(name) + " told the consumer \"" + got + "\" where the result is \"" + expected + "\"");
    return want;
}

void check_consumers(std::string_view source, Ctx& ctx)
{
    std::pmr::unsynchronized_pool_resource memory;
    std::pmr::vector<Token> tokens { &memory };
    std::string error;
    for (int form = 0; form < 2; ++form) {
        Recorder recorder;
        Basic_Diagnostic_Consumer basic;
        Diagnostic_Consumer& d = form == 0 ? static_cast<Diagnostic_Consumer&>(recorder) : basic;
        auto said = [&]() -> std::string {
            std::string r;
            if (form == 0) { for (auto& s : recorder.seen) r += s; return r; }
            for (auto& e : basic.tokenize_errors) r += "tokenize " + text(e);
            for (auto& e : basic.parse_errors) r += "parse " + text(e);
            for (auto& e : basic.analysis_errors) r += "analyze " + text(e);
            return r;
        };
        auto finish = [&] {
            d.clear();
            if (d.error_count() != 0 || !d.ok() || !said().empty()) ctx.fail("clear() left errors");
        };
        auto returned = [&](bool r, const std::string& e) { if (r != e.empty()) ctx.fail(std::string("the form with a consumer returned ") + (r ? "true" : "false") + " where the result is " + (e.empty() ? "success" : e)); };

        tokens.clear();
        std::pmr::vector<Token> tokens2 { &memory };
        auto r1 = tokenize(tokens, source);
        error = r1 ? "" : text(r1.error());
        returned(tokenize(tokens2, source, d), error);
        ctx.transitions += 2;
        std::string a, b;
        for (auto& t : tokens) a += text(t) + "\n";
        for (auto& t : tokens2) b += text(t) + "\n";
        if (a != b) ctx.fail("the tokens differ");
        if (!stage(ctx, "tokenize", error, d, said)) { ctx.outcome("tokenize error"); finish(); continue; }

        Parsed_Program p1 { source, &memory }, p2 { source, &memory };
        auto r2 = parse(p1, tokens);
        error = r2 ? "" : text(r2.error());
        returned(parse(p2, tokens, d), error);
        ctx.transitions += 2;
        if (!stage(ctx, "parse", error, d, said)) { ctx.outcome("parse error"); finish(); continue; }
        if (p1.get_node_count() != p2.get_node_count() || p1.get_root_handle() != p2.get_root_handle()) ctx.fail("the trees differ");

        Analyzed_Program a1 { p1, "a.bms", &memory }, a2 { p2, "a.bms", &memory };
        auto r3 = analyze(a1, p1, &memory);
        error = r3 ? "" : text(r3.error());
        returned(analyze(a2, p2, &memory, d), error);
        ctx.transitions += 2;
        if (!stage(ctx, "analyze", error, d, said)) ctx.outcome("analysis error");
        else ctx.outcome("accepted");
        if (a1.get_vm().instruction_count() != a2.get_vm().instruction_count()) ctx.fail("the generated code differs");
        finish();

        // The stages, one by one, are the analysis.
        if (form == 1) continue;
        Parsed_Program p3 { source, &memory };
        if (!parse(p3, tokens)) { ctx.fail("parsing again fails"); continue; }
        Analyzed_Program a3 { p3, "a.bms", &memory };
        auto s = resolve_annotations(a3, p3);
        if (s) s = analyze_name_lookup(a3, &memory);
        if (s) s = analyze_semantics(a3, &memory);
        ctx.transitions += 3;
        ++ctx.compared;
        if ((s ? "" : text(s.error())) != error) ctx.fail("stage by stage: " + (s ? "success" : text(s.error())) + ", at once: " + (error.empty() ? "success" : error));
        if (a1.get_vm().instruction_count() != a3.get_vm().instruction_count()) ctx.fail("stage by stage, the generated code differs");
        if (!r3) continue;
        // Each language by name and by its own function, with all the options that differ.
        using namespace bm::bmd;
        using Own = bm::Result<void, Generator_Error> (*)(Code_String&, const Analyzed_Program&, const Code_Options&);
        for (auto [language, own] : { std::pair<Code_Language, Own>(Code_Language::bms, generate_bms_code), { Code_Language::c, generate_c_code }, { Code_Language::cpp, generate_cpp_code } })
            for (int bits = 0; bits < 4; ++bits) {
                Code_Options o { .brace_style = bits & 1 ? Brace_Style::allman : Brace_Style::k_and_r };
                o.always_parenthesize_subexpressions = bits & 1;
                o.c_23 = o.c_prefer_bitint = bits & 2;
                Code_String x { &memory }, y { &memory }, z { &memory };
                auto g1 = generate_code(x, a1, language, o), g2 = own(y, a3, o);
                ctx.transitions += 2;
                ++ctx.compared;
                auto told = [&](auto& r) { return r ? std::string("success") : "error " + std::to_string(int(r.error().code)) + (r.error().fail ? " " + text(Debug_Info(r.error().fail)) : ""); };
                if (told(g1) != told(g2) || x.get_text() != y.get_text()) ctx.fail("generate_code gives " + told(g1) + " " + std::string(x.get_text()) + ", the function for the language " + told(g2) + " " + std::string(y.get_text()));
                if (bits) continue;
                auto g3 = generate_code(z, a1, language);
                if (told(g1) != told(g3) || x.get_text() != z.get_text()) ctx.fail("the options are not those by default: " + std::string(z.get_text()));
            }
    }
}

struct Consumers : Suite {
    std::string own, inner;
    explicit Consumers(std::string inner) : own("consumers_" + inner), inner(std::move(inner)) { }
    const char* name() const override { return own.c_str(); }
    Suite& target() const
    {
        for (auto* s : suites()) if (s->name() == inner) return *s;
        std::abort();
    }
    const char* bound(Tier t) const override { return target().bound(t); }
    unsigned hang_seconds() const override { return std::max(20u, target().hang_seconds()); }
    void enumerate(Tier t, const Emit& e) override { target().enumerate(t, e); }
    void check(std::string_view c, Ctx& ctx) override { check_consumers(c, ctx); }
};
struct Register_All {
    Register_All()
    {
        for (auto s : { "lex_strings", "lex_lexemes", "syntax_tokens", "syntax_edits", "names_globals", "names_bodies", "typing_statements", "sequences", "function_ends", "loops", "generic_deduction", "generic_instances", "assertions", "annotations" }) suites().push_back(new Consumers(s));
    }
} register_all;

// One consumer, many programs: the history of what it was told, in order and by kind, until it is cleared.
struct Histories : Suite {
    const char* name() const override { return "consumer_histories"; }
    const char* bound(Tier t) const override { return t == Tier::quick ? "all sequences of up to 6 programs (wrong tokens, wrong syntax, two wrong meanings, correct) and clear(), told to one consumer" : "all sequences of up to 8 programs (wrong tokens, wrong syntax, two wrong meanings, correct) and clear(), told to one consumer"; }
    void enumerate(Tier t, const Emit& emit) override
    {
        for (size_t n = 0; n <= (t == Tier::quick ? 6u : 8u); ++n)
            if (!all_sequences({ "t", "p", "a", "b", "o", "c" }, n, "", emit)) return;
    }
    void check(std::string_view c, Ctx& ctx) override
    {
        std::pmr::unsynchronized_pool_resource memory;
        Basic_Diagnostic_Consumer d;
        std::vector<std::string> expected[3];
        for (char op : c) {
            ++ctx.transitions;
            if (op == 'c') { d.clear(); for (auto& e : expected) e.clear(); }
            else {
                const std::string_view source = op == 't' ? "const $ = 1;" : op == 'p' ? "const = 1;" : op == 'a' ? "const a = b;" : op == 'b' ? "const a: Bool = 1;" : "const a = 1;";
                const bool before = d.ok();
                std::pmr::vector<Token> tokens { &memory };
                if (auto r = tokenize(tokens, source); !r) expected[0].push_back(text(r.error()));
                tokens.clear();
                const bool tokenized = tokenize(tokens, source, d);
                if (tokenized != (op != 't')) ctx.fail("tokenize returns " + std::to_string(tokenized));
                if (tokenized) {
                    Parsed_Program parsed { source, &memory };
                    if (auto r = parse(parsed, tokens); !r) expected[1].push_back(text(r.error()));
                    Parsed_Program again { source, &memory };
                    if (parse(again, tokens, d) != (op != 'p')) ctx.fail("parse returns the wrong thing");
                    if (op != 'p') {
                        Analyzed_Program one { parsed, "a.bms", &memory }, two { again, "a.bms", &memory };
                        if (auto r = analyze(one, parsed, &memory); !r) expected[2].push_back(text(r.error()));
                        if (analyze(two, again, &memory, d) != (op == 'o')) ctx.fail("analyze returns the wrong thing");
                    }
                }
                if (d.ok() != (before && op == 'o')) ctx.fail("ok() is wrong");
            }
            ++ctx.compared;
            std::string want, got;
            for (auto& e : expected) { for (auto& x : e) want += x + "\n"; want += "--\n"; }
            for (auto& e : d.tokenize_errors) got += text(e) + "\n";
            got += "--\n";
            for (auto& e : d.parse_errors) got += text(e) + "\n";
            got += "--\n";
            for (auto& e : d.analysis_errors) got += text(e) + "\n";
            got += "--\n";
            if (got != want) ctx.fail("the consumer has\n" + got + "instead of\n" + want);
            const size_t n = expected[0].size() + expected[1].size() + expected[2].size();
            if (d.error_count() != n || d.ok() != (n == 0)) ctx.fail("error_count() is " + std::to_string(d.error_count()) + " with " + std::to_string(n) + " errors");
            ctx.outcome(n ? "errors" : "no errors");
        }
    }
};
Register<Histories> r_histories;

// ---- entities and programs that move -------------------------------------------------------

// Memory that knows what was taken from it.
struct Owned_Memory final : std::pmr::memory_resource {
    std::map<void*, std::pair<size_t, size_t>> live;
    std::string wrong;
    void* do_allocate(size_t n, size_t a) override
    {
        void* p = ::operator new(n + !n, std::align_val_t(a));
        live[p] = { n, a };
        return p;
    }
    void do_deallocate(void* p, size_t n, size_t a) override
    {
        auto it = live.find(p);
        if (it == live.end()) { wrong = "memory was returned to a resource it was not taken from"; return; }
        if (it->second != std::pair(n, a)) wrong = "memory was returned with another size";
        live.erase(it);
        ::operator delete(p, std::align_val_t(a));
    }
    bool do_is_equal(const memory_resource& o) const noexcept override { return this == &o; }
};

struct Declared { std::string name; bool function; size_t begin; };

struct Entities : Suite {
    // The declarations from which programs are made, with names and kinds; '#' is replaced by a letter.
    static const std::vector<std::pair<std::string, int>>& items()
    { // kind: 0 nothing, 1 function, 2 constant
        static const std::vector<std::pair<std::string, int>> r {
            { "function # () -> Int { return 3; }", 1 }, { "function #(x: Uint(N)) -> Uint(N) { return x; }", 1 }, { "function #(x: Int) -> Int { let y = x; return y; }", 1 },
            { "const # = 5;", 2 }, { "const #: Uint(8) = 7;", 2 }, { "const # = true;", 2 }, { "static_assert(true);", 0 } };
        return r;
    }
    const char* name() const override { return "entities"; }
    const char* bound(Tier t) const override
    {
        return t == Tier::quick ? "all programs of <=3 declarations from 7 kinds x 4 names (a name may be declared twice), 13 names looked up in 4 ways, in 7 states of the program (only parsed, analyzed, moved by construction, by assignment to another program with the same or other memory, to itself, twice)"
                                : "the same with <=4 declarations";
    }
    void enumerate(Tier t, const Emit& emit) override
    {
        const std::vector<std::string> names { "a", "ab", "b", "assert" };
        Strings alphabet;
        for (auto& [i, k] : items()) {
            if (k == 0) { alphabet.push_back(i); continue; }
            for (auto& n : names) alphabet.push_back(fill(i, {}).replace(i.find('#'), 1, n));
        }
        for (size_t n = 1; n <= (t == Tier::quick ? 3u : 4u); ++n) if (!all_sequences(alphabet, n, "\n", emit)) return;
    }
    static std::vector<Declared> declared(std::string_view source)
    {
        std::vector<Declared> r;
        for (size_t i = 0; i < source.size();) {
            size_t e = std::min(source.find('\n', i), source.size());
            auto line = source.substr(i, e - i);
            if (auto k = line.starts_with("function ") ? 9u : line.starts_with("const ") ? 6u : 0u) r.push_back({ std::string(line.substr(k, line.find_first_of(" (:", k) - k)), k == 9, i });
            i = e + 1;
        }
        return r;
    }
    static void look(const Analyzed_Program& p, const std::vector<Declared>& d, std::string_view source, const char* when, Ctx& ctx)
    {
        auto bad = [&](std::string what) { ctx.fail(std::string(when) + ": " + what); };
        if (p.get_source() != source) bad("get_source() is not the source");
        if (p.get_file_name() != "file.bms") bad("get_file_name() is \"" + std::string(p.get_file_name()) + "\"");
        for (std::string_view n : { "a", "ab", "b", "assert", "", "abc", "A", "x", "y", "N", "c", "function", "a " }) {
            const Declared* want = nullptr;
            for (auto& x : d) if (x.name == n) { want = &x; break; }
            auto describe = [&](auto& r) -> std::string {
                if (!r) return r.error() == Introspection_Error_Code::nothing_found ? "nothing" : "wrong entity";
                const ast::Some_Node* node = *r;
                if (auto* f = get_if<ast::Function>(node)) return "function " + std::string(f->get_name()) + "@" + std::to_string(f->get_position()->begin);
                if (auto* c = get_if<ast::Const>(node)) return "const " + std::string(c->get_name()) + "@" + std::to_string(c->get_position()->begin);
                return "something else";
            };
            auto entity = p.find_entity(n), fnode = p.find_global_function_node(n), cnode = p.find_global_constant_node(n);
            auto f = p.find_global_function(n);
            auto c = p.find_global_constant(n);
            ctx.transitions += 5;
            ctx.compared += 5;
            const std::string all = want ? (want->function ? "function " : "const ") + want->name + "@" + std::to_string(want->begin) : "nothing";
            auto expect = [&](const char* how, const std::string& got, const std::string& exp) { if (got != exp) bad(std::string(how) + "(\"" + std::string(n) + "\") gives " + got + " instead of " + exp); };
            expect("find_entity", describe(entity), all);
            expect("find_global_function_node", describe(fnode), want && !want->function ? "wrong entity" : all);
            expect("find_global_constant_node", describe(cnode), want && want->function ? "wrong entity" : all);
            if (bool(f) != bool(fnode) || (f && *f != &get<ast::Function>(**fnode)) || (!f && f.error() != fnode.error())) bad("find_global_function(\"" + std::string(n) + "\") differs from find_global_function_node");
            if (bool(c) != bool(cnode) || (c && *c != &get<ast::Const>(**cnode)) || (!c && c.error() != cnode.error())) bad("find_global_constant(\"" + std::string(n) + "\") differs from find_global_constant_node");
            if (entity && fnode && *entity != *fnode) bad("find_entity and find_global_function_node give different nodes");
        }
    }
    // What the program computes.
    static std::string computed(Analyzed_Program& p, const std::vector<Declared>& d)
    {
        std::string r;
        for (auto& x : d) {
            if (!x.function) {
                auto c = p.find_global_constant(x.name);
                r += x.name + "=" + (c && (*c)->const_value() ? text(*(*c)->const_value()) : "none") + ";";
                continue;
            }
            auto f = p.find_global_function(x.name);
            if (!f || (*f)->is_generic || (*f)->vm_address == ast::Function::invalid_vm_address) { r += x.name + " generic;"; continue; }
            auto& vm = p.get_vm();
            vm.reset();
            vm.jump_to((*f)->vm_address);
            for (size_t i = 0; i < (*f)->get_parameter_count(); ++i) vm.push(Concrete_Value::Int(41));
            for (int i = 0; i < 100; ++i)
                if (!vm.cycle()) break;
            r += x.name + "()=" + text(vm.pop()) + ";";
        }
        return r;
    }
    void check(std::string_view c, Ctx& ctx) override
    {
        // Runs of several states over memory of their own, all of which must be returned where it was taken.
        const auto d = declared(c);
        std::string accepted;
        Owned_Memory memory, other;
        {
            const std::string source { c }, file = "file.bms";
            std::pmr::vector<Token> tokens { &memory };
            if (!tokenize(tokens, source)) { ctx.fail("not tokenized"); return; }
            auto make = [&](std::pmr::memory_resource* m) {
                Parsed_Program parsed { source, m };
                if (!parse(parsed, tokens)) ctx.fail("not parsed");
                return parsed;
            };
            Parsed_Program first = make(&memory);
            Parsed_Program parsed = std::move(first); // moved by construction
            if (parsed.get_source() != source || parsed.get_memory() != &memory) ctx.fail("a moved parsed program has another source or memory");
            {
                Parsed_Program replaced = make(&other); // moved by assignment, with other memory
                Parsed_Program from = make(&memory);
                const auto count = from.get_node_count();
                replaced = std::move(from);
                if (replaced.get_source() != source || replaced.get_node_count() != count) ctx.fail("a parsed program moved by assignment has another source or size");
                (void)replaced.push_node(astp::Some_Node { astp::Break { tokens.empty() ? bm::Local_Source_Span {} : tokens[0].pos } });
                auto& self = replaced;
                replaced = std::move(self);
                if (replaced.get_source() != source || replaced.get_node_count() != count + 1) ctx.fail("a parsed program assigned to itself has changed");
            }
            Analyzed_Program only_parsed { parsed, file, &memory };
            look(only_parsed, d, source, "parsed", ctx);
            bool ok = bool(analyze(only_parsed, parsed, &memory));
            ctx.outcome(ok ? "accepted" : "rejected");
            look(only_parsed, d, source, "analyzed", ctx);
            const std::string before = ok ? computed(only_parsed, d) : "";
            Analyzed_Program constructed { std::move(only_parsed) };
            look(constructed, d, source, "moved by construction", ctx);
            auto same = [&](Analyzed_Program& p, const char* when) { ++ctx.compared; if (ok && computed(p, d) != before) ctx.fail(std::string(when) + ": the program computes " + computed(p, d) + " instead of " + before); };
            same(constructed, "moved by construction");
            {
                Analyzed_Program assigned { parsed, "other.bms", &memory };
                assigned = std::move(constructed);
                look(assigned, d, source, "moved by assignment", ctx);
                same(assigned, "moved by assignment");
                auto& self = assigned;
                assigned = std::move(self);
                look(assigned, d, source, "assigned to itself", ctx);
                same(assigned, "assigned to itself");
                Analyzed_Program elsewhere { parsed, "other.bms", &other };
                elsewhere = std::move(assigned);
                look(elsewhere, d, source, "moved to a program with other memory", ctx);
                same(elsewhere, "moved to a program with other memory");
                assigned = Analyzed_Program { parsed, "file.bms", &other };
                look(assigned, d, source, "given anew", ctx);
                if (bool(analyze(assigned, parsed, &other)) != ok) ctx.fail("given anew: another verdict");
                same(assigned, "given anew");
            }
        }
        for (auto* m : { &memory, &other }) {
            if (!m->wrong.empty()) ctx.fail(m->wrong);
            if (!m->live.empty()) ctx.fail(std::to_string(m->live.size()) + " pieces of memory were never returned");
        }
    }
};
Register<Entities> r_entities;

// ---- operations -----------------------------------------------------------------------------

// Operations on types, on concrete values and on possibly unknown values agree, and the latter describe every completion.
struct Operations : Suite {
    static std::vector<Concrete_Type> types()
    {
        std::vector<Concrete_Type> r { Concrete_Type::Void, Concrete_Type::Bool, Concrete_Type::Int };
        for (int w : { 1, 2, 3, 127, 128 }) r.push_back(Concrete_Type::Uint(w));
        return r;
    }
    static std::vector<Concrete_Value> values(Concrete_Type t)
    {
        std::vector<Concrete_Value> r;
        auto add = [&](Big_Int v) { r.push_back({ t, v }); };
        const Big_Int max = Big_Int(Big_Uint(-1) >> 1), min = -max - 1;
        switch (t.type()) {
        case Type_Type::Void: add(0); break;
        case Type_Type::Bool: add(0); add(1); break;
        case Type_Type::Int: for (Big_Int v : { Big_Int(0), Big_Int(1), Big_Int(-1), Big_Int(2), Big_Int(3), Big_Int(4), Big_Int(7), Big_Int(8), Big_Int(127), Big_Int(128), max, min }) add(v); break;
        case Type_Type::Uint:
            if (t.width() <= 3) for (int v = 0; v < 1 << t.width(); ++v) add(v);
            else for (Big_Uint v : { Big_Uint(0), Big_Uint(1), Big_Uint(2), Big_Uint(126), Big_Uint(127), Big_Uint(128), Big_Uint(t.get_mask() >> 1), t.get_mask() }) add(Big_Int(v));
        }
        return r;
    }
    const char* name() const override { return "operations"; }
    const char* bound(Tier) const override
    {
        return "the common type of all pairs of 8 types, all 27 kinds of expressions as unary and binary operators, conversions (lossless and truncating), conditional expressions and builtin calls with 0..2 arguments: on types, on 1..12 values of each type, on known values and on unknown values, each unknown compared with all its completions";
    }
    void enumerate(Tier, const Emit& emit) override
    {
        const int n = int(types().size());
        for (int op = 0; op <= int(Expression_Type::id); ++op)
            for (int a = 0; a < n; ++a)
                for (int b = 0; b < n; ++b)
                    if (!emit("op " + std::to_string(op) + " " + std::to_string(a) + " " + std::to_string(b))) return;
        for (int a = 0; a < n; ++a)
            for (int b = 0; b < n; ++b) {
                if (!emit("conv 0 " + std::to_string(a) + " " + std::to_string(b))) return;
                for (int c = 0; c < n; ++c)
                    if (!emit("if " + std::to_string(c) + " " + std::to_string(a) + " " + std::to_string(b))) return;
            }
        for (int a = -1; a < n; ++a)
            for (int b = -1; b < (a < 0 ? 0 : n); ++b)
                if (!emit("call 0 " + std::to_string(a) + " " + std::to_string(b))) return;
    }

    // An abstract result covers the concrete results of all completions.
    static void covers(Ctx& ctx, const std::string& what, const bm::Result<Value, Evaluation_Error_Code>& v, const bm::Result<Concrete_Type, Analysis_Error_Code>& type, const std::vector<bm::Result<Concrete_Value, Evaluation_Error_Code>>& completions)
    {
        ++ctx.compared;
        if (!type) {
            if (v || v.error() != Evaluation_Error_Code::type_error) ctx.fail(what + " gives " + text(v) + " though the types are wrong");
            return;
        }
        if (v && v->get_type() != *type) ctx.fail(what + " gives " + text(v) + ", not of type " + text(*type));
        for (auto& c : completions) {
            if (!v && c) ctx.fail(what + " gives " + text(v) + " but a completion gives " + text(*c));
            if (v && v->is_known() && (!c || text(*c) != text(v->concrete_value()))) ctx.fail(what + " gives " + text(v) + " but a completion gives " + text(c));
        }
    }
    static void equal(Ctx& ctx, const std::string& what, const std::string& a, const std::string& b)
    {
        ++ctx.compared;
        if (a != b) ctx.fail(what + ": " + a + " and " + b);
    }
    void check(std::string_view c, Ctx& ctx) override
    {
        char kind[8];
        int k, a, b;
        std::sscanf(std::string(c).c_str(), "%7s %d %d %d", kind, &k, &a, &b);
        const auto ty = types();
        using Results = std::vector<bm::Result<Concrete_Value, Evaluation_Error_Code>>;
        if (std::string_view(kind) == "op") {
            const auto op = Expression_Type(k);
            const auto A = ty[a], B = ty[b];
            const auto common = get_common_type(A, B), mirrored = get_common_type(B, A);
            equal(ctx, "common type", text(common), text(mirrored));
            if (common && !(A.is_convertible_to(*common) && B.is_convertible_to(*common))) ctx.fail("the common type of " + text(A) + " and " + text(B) + " is " + text(*common));
            if (!common && (A.is_convertible_to(B) || B.is_convertible_to(A))) ctx.fail("no common type of " + text(A) + " and " + text(B));
            const auto binary = check_binary_operator(A, op, B), unary = check_unary_operator(op, A);
            ctx.outcome(binary ? "binary" : text(binary.error()));
            const std::string o = text(A) + " op " + std::to_string(k) + " " + text(B);
            Results whole;
            for (auto x : values(A)) {
                Results row;
                for (auto y : values(B)) {
                    ++ctx.transitions;
                    auto r = evaluate_binary_operator(x, op, y);
                    const std::string n = text(x) + " op " + std::to_string(k) + " " + text(y);
                    if (binary ? (r ? r->type != *binary : r.error() == Evaluation_Error_Code::type_error) : (r || r.error() != Evaluation_Error_Code::type_error)) ctx.fail(n + " gives " + text(r) + ", the types give " + text(binary));
                    equal(ctx, n + " on values", text(r), text(evaluate_binary_operator(Value(x), op, Value(y))));
                    row.push_back(r);
                    whole.push_back(r);
                }
                covers(ctx, text(x) + " op " + std::to_string(k) + " ?" + text(B), evaluate_binary_operator(Value(x), op, Value::unknown_of_type(B)), binary, row);
                auto u = evaluate_unary_operator(op, x);
                if (unary ? (u ? u->type != *unary : u.error() == Evaluation_Error_Code::type_error) : (u || u.error() != Evaluation_Error_Code::type_error)) ctx.fail("op " + std::to_string(k) + " " + text(x) + " gives " + text(u) + ", the type gives " + text(unary));
                equal(ctx, "op " + std::to_string(k) + " " + text(x) + " on values", text(u), text(evaluate_unary_operator(op, Value(x))));
            }
            Results us;
            for (auto x : values(A)) us.push_back(evaluate_unary_operator(op, x));
            covers(ctx, "op " + std::to_string(k) + " ?" + text(A), evaluate_unary_operator(op, Value::unknown_of_type(A)), unary, us);
            for (auto y : values(B)) {
                Results column;
                for (auto x : values(A)) column.push_back(evaluate_binary_operator(x, op, y));
                covers(ctx, "?" + text(A) + " op " + std::to_string(k) + " " + text(y), evaluate_binary_operator(Value::unknown_of_type(A), op, Value(y)), binary, column);
            }
            covers(ctx, "? " + o + " ?", evaluate_binary_operator(Value::unknown_of_type(A), op, Value::unknown_of_type(B)), binary, whole);
        }
        else if (std::string_view(kind) == "conv") {
            const auto A = ty[a], B = ty[b];
            const bool can = A == B || (A == Concrete_Type::Int && B.is_uint());
            if (A.is_convertible_to(B) != can) ctx.fail(text(A) + " to " + text(B) + ": wrong convertibility");
            const bm::Result<Concrete_Type, Analysis_Error_Code> type = can ? bm::Result<Concrete_Type, Analysis_Error_Code>(B) : Analysis_Error_Code::incompatible_types;
            Results all;
            for (auto x : values(A)) {
                const std::string n = text(x) + " to " + text(B);
                const Big_Uint mask = B.get_mask();
                const bool fits = A == B || (x.int_value >= 0 && Big_Uint(x.int_value) <= mask);
                const std::string lossless = !can ? "error type_error" : fits ? text(Concrete_Value { B, x.int_value }) : "error int_to_uint_range_error";
                const std::string truncated = !can ? "error type_error" : A == B ? text(x) : text(Concrete_Value { B, Big_Int(Big_Uint(x.int_value) & mask) });
                equal(ctx, n, text(evaluate_conversion(x, B)), lossless);
                equal(ctx, n, text(evaluate_conversion(Value(x), B)), lossless);
                equal(ctx, n, text(x.convert_to(B, Conversion_Type::lossless_numeric)), lossless);
                equal(ctx, n, text(Value(x).convert_to(B, Conversion_Type::lossless_numeric)), lossless);
                equal(ctx, n + " truncated", text(x.convert_to(B, Conversion_Type::truncating_numeric)), truncated);
                equal(ctx, n + " truncated", text(Value(x).convert_to(B, Conversion_Type::truncating_numeric)), truncated);
                ctx.transitions += 6;
                ctx.outcome(!can ? "no conversion" : fits ? "fits" : "out of range");
                all.push_back(evaluate_conversion(x, B));
                // Values of Uint(128) are stored in a Big_Int by their bits, so negative ones are representable.
                if ((A == B || A == Concrete_Type::Int) && B.is_uint() && B.width() < 128 && B.can_represent(x.int_value) != fits) ctx.fail(n + ": can_represent is wrong");
            }
            covers(ctx, "?" + text(A) + " to " + text(B), evaluate_conversion(Value::unknown_of_type(A), B), type, all);
            auto u = Value::unknown_of_type(A).convert_to(B, Conversion_Type::truncating_numeric);
            equal(ctx, "?" + text(A) + " to " + text(B) + " truncated", text(u), can ? "?:" + text(B) : "error type_error");
        }
        else if (std::string_view(kind) == "if") {
            const auto C = ty[k], A = ty[a], B = ty[b];
            const auto type = check_if_expression(A, C, B);
            ctx.outcome(type ? "if" : text(type.error()));
            auto A1 = values(A), B1 = values(B), C1 = values(C);
            auto all = [&](std::optional<size_t> x, std::optional<size_t> cond, std::optional<size_t> y) {
                Results r;
                for (size_t i = x.value_or(0); i < (x ? *x + 1 : A1.size()); ++i)
                    for (size_t j = cond.value_or(0); j < (cond ? *cond + 1 : C1.size()); ++j)
                        for (size_t l = y.value_or(0); l < (y ? *y + 1 : B1.size()); ++l) r.push_back(evaluate_if_expression(A1[i], C1[j], B1[l]));
                return r;
            };
            for (size_t i = 0; i <= A1.size(); ++i)
                for (size_t j = 0; j <= C1.size(); ++j)
                    for (size_t l = 0; l <= B1.size(); ++l) {
                        auto x = i < A1.size() ? Value(A1[i]) : Value::unknown_of_type(A);
                        auto q = j < C1.size() ? Value(C1[j]) : Value::unknown_of_type(C);
                        auto y = l < B1.size() ? Value(B1[l]) : Value::unknown_of_type(B);
                        ++ctx.transitions;
                        auto r = evaluate_if_expression(x, q, y);
                        const std::string n = text(x) + " if " + text(q) + " else " + text(y);
                        if (x && q && y) {
                            auto z = evaluate_if_expression(A1[i], C1[j], B1[l]);
                            equal(ctx, n, text(z), text(r));
                            if (type ? (z ? z->type != *type : z.error() == Evaluation_Error_Code::type_error) : (z || z.error() != Evaluation_Error_Code::type_error)) ctx.fail(n + " gives " + text(z) + ", the types give " + text(type));
                            if (type) equal(ctx, n, text(z), text(evaluate_conversion(C1[j].int_value ? A1[i] : B1[l], *type)));
                            continue;
                        }
                        using O = std::optional<size_t>;
                        covers(ctx, n, r, type, all(x ? O(i) : O(), q ? O(j) : O(), y ? O(l) : O()));
                        // A known choice of a known value is known.
                        if (type && q && (C1[j].int_value ? x : y)) { auto z = evaluate_conversion((C1[j].int_value ? x : y).concrete_value(), *type); equal(ctx, n, text(z), text(r)); }
                    }
        }
        else {
            std::vector<Concrete_Type> at;
            for (int x : { a, b }) if (x >= 0) at.push_back(ty[x]);
            const bool right = at.size() == 1 && at[0] == Concrete_Type::Bool;
            const std::string expected = right ? text(Concrete_Type::Void) : "error " + text(at.size() == 1 ? Analysis_Error_Code::wrong_argument_type : Analysis_Error_Code::wrong_number_of_arguments);
            const auto type = check_builtin_function(Builtin_Function::assert, std::span<const Concrete_Type>(at));
            equal(ctx, "assert", text(type), expected);
            std::vector<std::vector<Concrete_Value>> lists { {} };
            for (auto t : at) {
                std::vector<std::vector<Concrete_Value>> next;
                for (auto& l : lists) for (auto v : values(t)) { next.push_back(l); next.back().push_back(v); }
                lists = std::move(next);
            }
            for (auto& l : lists) {
                equal(ctx, "assert of values", text(check_builtin_function(Builtin_Function::assert, std::span<const Concrete_Value>(l))), expected);
                std::vector<Value> known(l.begin(), l.end());
                equal(ctx, "assert of values", text(check_builtin_function(Builtin_Function::assert, std::span<const Value>(known))), expected);
                auto r = evaluate_builtin_function(Builtin_Function::assert, std::span<const Concrete_Value>(l));
                equal(ctx, "assert", text(r), !right ? "error type_error" : l[0].int_value ? text(Concrete_Value::Void) : "error assertion_fail");
                equal(ctx, "assert", text(r), text(evaluate_builtin_function(Builtin_Function::assert, std::span<const Value>(known))));
                ctx.transitions += 4;
                for (size_t i = 0; i < known.size(); ++i) {
                    auto some = known;
                    some[i] = Value::unknown_of_type(at[i]);
                    equal(ctx, "assert of an unknown value", text(check_builtin_function(Builtin_Function::assert, std::span<const Value>(some))), expected);
                    equal(ctx, "assert of an unknown value", text(evaluate_builtin_function(Builtin_Function::assert, std::span<const Value>(some))), right ? "?:Void" : "error type_error");
                }
                ctx.outcome(right ? "assert" : "wrong arguments");
            }
        }
    }
};
Register<Operations> r_operations;

// ---- explicit instantiation -----------------------------------------------------------------

// Programs with bit-generic functions whose widths are `@`: instantiated with a width by the library, and written out with that width.
struct Instantiate_All : Suite {
    const char* name() const override { return "instantiate_all"; }
    const char* bound(Tier t) const override
    {
        return t == Tier::quick ? "all sequences of <=2 of 25 declarations (bit-generic functions with 1..3 parameters, calls between them, constants, functions that are not generic), all functions instantiated with width 1, 2, 3, 64 or 128, in one go, repeated and one by one, compared with the same program written with that width; all arguments for widths <=3"
                                : "the same for sequences of <=3 and 9 widths";
    }
    void enumerate(Tier t, const Emit& emit) override
    {
        const Strings items { "function a(x: Uint(@)) -> Uint(@) { return x; }", "function b(x: Uint(@)) -> Uint(@) { return ~x; }", "function c(x: Uint(@)) -> Int { return @; }", "function d(x: Uint(@), y: Uint(@)) -> Bool { return x == y; }", "function e(x: Uint(@), y: Uint(@)) -> Uint(@) { return x & ~y; }",
            "function f(x: Uint(@)) -> Uint(@) { let r: Uint(@) = 0; while r != x { r = r + 1; } return r; }", "function g(x: Uint(@)) -> Uint(8) { return (@ as Uint(8)); }", "function h(x: Uint(@)) -> Uint(@) requires @ != 2 { return x; }", "function i(x: Uint(@)) -> Uint(@) { static_assert(@ < 100); return x; }",
            "function j(n: Int, x: Uint(@), b: Bool) -> Uint(@) { if b { return x; } return 0; }", "function k(x: Uint(@)) -> Uint(@) { return a(x) + b(x); }", "function l(x: Uint(@)) -> Bool { return d(x, x); }", "function m() -> Int { return 3; }", "const n = 3;", "function o(x: Uint(@)) -> Uint(@) { return x << 2; }",
            "function p(x: Uint(@)) -> Uint(@) { return 5; }", "function q(x: Uint(@)) -> Int { let y: Uint(@) = x; { let z: Int = @; y = y + x; return z + n; } }", "function r(x: Uint(@)) -> Uint(@) { return x if x == 0 else r(x - 1); }", "function s(x: Uint(4)) -> Uint(4) { return x; }", "function t(x: Uint(@), y: Uint(n)) -> Uint(n) { return y; }",
            "function u(x: Uint(@), y: Uint(m())) -> Uint(m()) { return y; }", "static_assert(n == 3);", "function v(x: Uint(@)) -> Void { x = 1; }", "function w(x: Uint(@)) -> Uint(@) { const c1 = @ * 2; let d1 = c1; if d1 > 4 { return x; } else { return x ^ x; } }", "function y1(x: Uint(@)) -> Int { let r = c(x); return r + @; }" };
        for (size_t n = 1; n <= (t == Tier::quick ? 2u : 3u); ++n)
            if (!all_sequences(items, n, "\n", [&](std::string_view s) {
                    if (s.find("function t(") != s.npos && s.find("const n ") == s.npos) return true; // n would be a width of its own
                    for (int w : { 1, 2, 3, 64, 128, 4, 8, 100, 127 }) {
                        if (t == Tier::quick && w != 1 && w != 2 && w != 3 && w != 64 && w != 128) continue;
                        if (!emit(std::to_string(w) + "|" + std::string(s))) return false;
                    }
                    return true;
                }))
                return;
    }
    static std::string with(std::string_view s, const std::string& w)
    {
        std::string r;
        for (char c : s) r += c == '@' ? w : std::string(1, c);
        return r;
    }
    struct Made {
        std::string source, error;
        std::pmr::unsynchronized_pool_resource memory;
        std::pmr::vector<Token> tokens { &memory };
        std::optional<Parsed_Program> parsed;
        std::optional<Analyzed_Program> program;
        bool ready = false;
        explicit Made(std::string s) : source(std::move(s))
        {
            if (!tokenize(tokens, source)) { error = "tokenize"; return; }
            parsed.emplace(source, &memory);
            if (!parse(*parsed, tokens)) { error = "parse"; return; }
            program.emplace(*parsed, "case.bms", &memory);
            if (auto r = resolve_annotations(*program, *parsed); !r) error = error_name(r.error());
            else if (auto r = analyze_name_lookup(*program, &memory); !r) error = error_name(r.error());
            else ready = true;
        }
        void finish() { if (auto r = analyze_semantics(*program, &memory); !r) error = error_name(r.error()); else generate(); }
        // Code of all functions, including those that no constant has needed; functions that cannot be generated (recursive ones) have none.
        void generate()
        {
            auto& code = program->get_vm().instructions();
            for (bool more = true; more;) {
                more = false;
                auto attempt = [&](ast::Some_Node* h) {
                    auto& f = get<ast::Function>(*h);
                    if (f.is_generic || f.vm_address != ast::Function::invalid_vm_address) return;
                    const auto size = code.size();
                    if (auto r = generate_code(code, h, f)) { f.vm_address = size; more = true; }
                    else code.erase(code.begin() + std::ptrdiff_t(size), code.end());
                };
                for (auto* n : get_children(*program->get_root()))
                    if (auto* f = get_if<ast::Function>(n)) {
                        attempt(n);
                        for (auto& i : f->instances) attempt(i.handle);
                    }
            }
        }
    };
    // The outcome of one function for the given arguments.
    static std::string run(Analyzed_Program& p, const ast::Function& f, const std::vector<Concrete_Value>& args)
    {
        if (f.vm_address == ast::Function::invalid_vm_address) return "no code";
        auto& vm = p.get_vm();
        vm.reset();
        vm.jump_to(f.vm_address);
        for (auto& a : args) vm.push(a);
        for (int i = 0; i < 2000; ++i)
            if (auto c = vm.cycle(); !c) {
                if (c.error().code == Execution_Error_Code::pop_call) return text(vm.pop());
                return std::string(execution_error_code_name(c.error().code)) + (c.error().code == Execution_Error_Code::evaluation ? " " + text(c.error().evaluation_error) : "");
            }
        return "too long";
    }
    void check(std::string_view c, Ctx& ctx) override
    {
        const auto bar = c.find('|');
        const int w = std::stoi(std::string(c.substr(0, bar)));
        const auto body = c.substr(bar + 1);
        // The first parameter's width introduces the name, other occurrences refer to it.
        const std::string generic = with(body, "N");
        Made concrete { with(body, std::to_string(w)) };
        if (concrete.ready) concrete.finish();
        for (int form = 0; form < 3; ++form) { // in one go, twice, one by one
            Made g { generic };
            ++ctx.transitions;
            if (!g.ready) { if (g.error != concrete.error) ctx.fail("names: " + g.error + ", written out: " + concrete.error); continue; }
            std::vector<std::string> names;
            std::vector<ast::Some_Node*> nodes;
            for (auto* n : get_children(*g.program->get_root()))
                if (auto* f = get_if<ast::Function>(n)) nodes.push_back(n);
            const bm::bms::Widths widths = w;
            if (form < 2) {
                for (int i = 0; i <= form; ++i)
                    if (auto r = instantiate_all(*g.program, &g.memory, widths); !r) ctx.fail("instantiate_all fails: " + error_name(r.error()));
            }
            else
                for (auto* n : nodes) {
                    auto& f = get<ast::Function>(*n);
                    if (!f.is_generic) continue;
                    std::vector<int> list(3, w);
                    auto r = instantiate_function(*g.program, &g.memory, n, f, std::span<const int>(list));
                    auto again = instantiate_function(*g.program, &g.memory, n, f, widths);
                    if (!r || !again || *r != *again) ctx.fail("the same widths give another instance");
                }
            for (auto* n : nodes) {
                auto& f = get<ast::Function>(*n);
                ++ctx.compared;
                const auto name = std::string(f.get_name());
                if (!f.is_generic) { if (!f.instances.empty()) ctx.fail(name + " is not generic but has instances"); continue; }
                if (f.instances.size() != 1) { ctx.fail(name + " has " + std::to_string(f.instances.size()) + " instances"); continue; }
                auto& instance = get<ast::Function>(*f.instances[0].handle);
                if (f.find_instance(widths) != &f.instances[0]) ctx.fail(name + ": find_instance does not find the instance");
                if (instance.is_generic || instance.get_name() != f.get_name() || instance.get_parameter_count() != f.get_parameter_count()) ctx.fail(name + ": the instance is not one of the function");
                for (int v : f.instances[0].widths) if (v != w) ctx.fail(name + ": width " + std::to_string(v));
            }
            g.finish();
            ++ctx.compared;
            if (g.error != concrete.error) { ctx.fail("instantiated: " + (g.error.empty() ? "accepted" : g.error) + ", written out: " + (concrete.error.empty() ? "accepted" : concrete.error)); continue; }
            ctx.outcome(g.error.empty() ? "accepted" : g.error);
            if (!g.error.empty()) continue;
            for (auto* n : nodes) {
                auto& f = get<ast::Function>(*n);
                auto written = concrete.program->find_global_function(f.get_name());
                const ast::Function* instance = &f;
                if (f.is_generic) { auto* i = f.find_instance(widths); if (!i) { ctx.fail("the instance was lost"); continue; } instance = &get<ast::Function>(*i->handle); }
                std::vector<std::vector<Concrete_Value>> lists { {} };
                for (auto& p : (*written)->get_parameters()) {
                    auto t = p.get_type().concrete_type();
                    auto mine = instance->get_parameters()[&p - (*written)->get_parameters().data()].get_type().concrete_type();
                    if (!t || !mine || *t != *mine) { ctx.fail(std::string(f.get_name()) + ": parameter types differ"); lists.clear(); break; }
                    std::vector<std::vector<Concrete_Value>> next;
                    std::vector<Concrete_Value> vs;
                    if (t->is_uint() && t->width() > 3) for (Big_Uint v : { Big_Uint(0), Big_Uint(1), t->get_mask() }) vs.push_back({ *t, Big_Int(v) });
                    else if (*t == Concrete_Type::Int) vs = { Concrete_Value::Int(-1), Concrete_Value::Int(4) };
                    else for (int v = 0; v <= int(t->get_mask()); ++v) vs.push_back({ *t, v });
                    for (auto& l : lists) for (auto v : vs) { next.push_back(l); next.back().push_back(v); }
                    lists = std::move(next);
                }
                for (auto& l : lists) {
                    ++ctx.transitions;
                    ++ctx.compared;
                    auto x = run(*g.program, *instance, l), y = run(*concrete.program, **written, l);
                    ctx.outcome(x == "no code" || x == "too long" ? x : x.find(':') != x.npos ? "value" : "other result");
                    if (x != y) ctx.fail(std::string(f.get_name()) + " gives " + x + " instantiated and " + y + " written out");
                }
            }
        }
    }
};
Register<Instantiate_All> r_instantiate;

// Requests for instances in any order: one instance per combination of widths, found again however it is asked for.
struct Requests : Suite {
    const char* name() const override { return "instance_requests"; }
    const char* bound(Tier t) const override { return t == Tier::quick ? "functions of 1..3 generic parameters: all sequences of up to 3 requests, each for one of 2 widths of all parameters or any combination of 2 widths" : "functions of 1..3 generic parameters: all sequences of up to 4 requests, each for one of 3 widths of all parameters or any combination of 3 widths"; }
    static constexpr std::string_view functions[] {
        "function f(a: Uint(N)) -> Int { return N; }",
        "function f(a: Uint(N), b: Uint(M)) -> Int { return (1000 * N) + M; }",
        "function f(a: Uint(N), x: Int, b: Uint(N)) -> Int { return N; }",
        "function f(a: Uint(N), b: Uint(M), c: Uint(K)) -> Int { return (1000000 * N) + ((1000 * M) + K); }",
        "function f(a: Uint(N), b: Uint(8), c: Uint(M), d: Uint(N)) -> Int { return (1000 * N) + M; }",
    };
    static constexpr int parameters[] { 1, 2, 1, 3, 2 };
    static constexpr int widths[] { 3, 7, 128 };
    void enumerate(Tier t, const Emit& emit) override
    {
        const int base = t == Tier::quick ? 2 : 3;
        for (int f = 0; f < 5; ++f) {
            Strings requests;
            for (int w = 0; w < base; ++w) requests.push_back("=" + std::to_string(w));
            std::function<void(std::string, int)> go = [&](std::string x, int n) { if (n == 0) { requests.push_back(x); return; } for (int w = 0; w < base; ++w) go(x + std::to_string(w), n - 1); };
            go("", parameters[f]);
            for (size_t n = 1; n <= (t == Tier::quick || requests.size() > 20 ? 3u : 4u); ++n)
                if (!all_sequences(requests, n, " ", [&](std::string_view s) { return emit(std::to_string(f) + " " + std::string(s)); })) return;
        }
    }
    void check(std::string_view c, Ctx& ctx) override
    {
        const int which = c[0] - '0';
        const std::string_view source = functions[which];
        Instantiate_All::Made g { std::string(source) };
        if (!g.ready) { ctx.fail("not accepted: " + g.error); return; }
        ast::Some_Node* node = nullptr;
        for (auto* n : get_children(*g.program->get_root())) if (get_if<ast::Function>(n)) node = n;
        auto& f = get<ast::Function>(*node);
        std::istringstream words { std::string(c.substr(2)) };
        std::map<std::vector<int>, ast::Some_Node*> made;
        std::string word;
        while (words >> word) {
            std::vector<int> ws;
            for (int i = 0; i < parameters[which]; ++i) ws.push_back(widths[(word[0] == '=' ? word[1] : word[i]) - '0']);
            const Widths w = word[0] == '=' ? Widths(ws[0]) : Widths(std::span<const int>(ws));
            ++ctx.transitions;
            ++ctx.compared;
            const bool known = made.count(ws);
            if (auto* i = f.find_instance(w); (i != nullptr) != known || (i && i->handle != made[ws])) ctx.fail(word + ": find_instance finds " + (i ? "another instance" : "none"));
            auto r = instantiate_function(*g.program, &g.memory, node, f, w);
            if (!r) { ctx.fail(word + ": " + error_name(r.error())); return; }
            if (known && *r != f.find_instance(w)) ctx.fail(word + ": another instance is returned");
            if (known && (*r)->handle != made[ws]) ctx.fail(word + ": another instance is returned");
            if (!known) for (auto& [k, h] : made) if (h == (*r)->handle) ctx.fail(word + ": the instance for other widths is returned");
            made[ws] = (*r)->handle;
            if (f.instances.size() != made.size()) ctx.fail(std::to_string(f.instances.size()) + " instances of " + std::to_string(made.size()));
            // Asked again, in both ways.
            for (auto& [k, h] : made) {
                auto* i = f.find_instance(Widths(std::span<const int>(k)));
                if (!i || i->handle != h) ctx.fail("an instance is not found again");
                else if (std::vector<int>(i->widths.begin(), i->widths.end()) != k) ctx.fail("an instance has other widths");
            }
            for (int v : widths) {
                auto* i = f.find_instance(Widths(v));
                auto it = made.find(std::vector<int>(size_t(parameters[which]), v));
                if ((i != nullptr) != (it != made.end()) || (i && i->handle != it->second)) ctx.fail("the instance with all widths " + std::to_string(v) + " is " + (i ? "another" : "not found"));
            }
            ctx.outcome(known ? "known" : "new");
        }
        g.finish();
        if (!g.error.empty()) { ctx.fail("analysis: " + g.error); return; }
        for (auto& [k, h] : made) {
            auto& instance = get<ast::Function>(*h);
            std::vector<Concrete_Value> args;
            size_t p = 0;
            for (auto& q : instance.get_parameters()) {
                auto t = q.get_type().concrete_type();
                if (!t) { ctx.fail("a parameter has no type"); return; }
                args.push_back({ *t, 0 });
            }
            (void)p;
            long long want = 0;
            for (int v : k) want = want * 1000 + v;
            ++ctx.compared;
            if (auto got = Instantiate_All::run(*g.program, instance, args); got != text(Concrete_Value::Int(want))) ctx.fail("an instance gives " + got + " instead of " + std::to_string(want));
        }
    }
};
Register<Requests> r_requests;

// ---- names ----------------------------------------------------------------------------------

struct Names : Suite {
    const char* name() const override { return "enumeration_names"; }
    const char* bound(Tier) const override { return "all enumerators of 12 enumerations that have names: non-empty, distinct, found again by name; spelled tokens are tokenized to themselves; all values of the builtin functions"; }
    void enumerate(Tier, const Emit& emit) override
    {
        for (auto s : { "tokens", "expressions", "rules", "annotations", "analysis", "evaluation", "execution", "types", "languages", "directives", "bmd_rules", "builtins" }) if (!emit(s)) return;
    }
    template <typename E, typename F> static std::vector<std::string> distinct(Ctx& ctx, E last, F&& name)
    {
        std::vector<std::string> r;
        for (int i = 0; i <= int(last); ++i) {
            std::string n(name(E(i)));
            ++ctx.compared;
            ++ctx.transitions;
            if (n.empty()) ctx.fail("enumerator " + std::to_string(i) + " has no name");
            for (size_t k = 0; k < r.size(); ++k) if (r[k] == n) ctx.fail("enumerators " + std::to_string(k) + " and " + std::to_string(i) + " are both called " + n);
            r.push_back(n);
        }
        ctx.outcome("names");
        return r;
    }
    void check(std::string_view c, Ctx& ctx) override
    {
        if (c == "tokens") {
            auto last = Token_Type::keyword_static_assert;
            distinct(ctx, last, token_type_name);
            distinct(ctx, last, token_type_readable_name);
            for (int i = 0; i <= int(last); ++i) {
                auto t = Token_Type(i);
                std::string code(token_type_code_name(t)), readable(token_type_readable_name(t));
                ++ctx.compared;
                if (code.size() != token_type_length(t)) ctx.fail(std::string(token_type_name(t)) + " is spelled \"" + code + "\" but has length " + std::to_string(token_type_length(t)));
                if (code.empty()) { if (readable.find('\'') != readable.npos) ctx.fail("quotes in the name of " + std::string(token_type_name(t))); continue; }
                if (readable != "'" + code + "'") ctx.fail(std::string(token_type_name(t)) + " is spelled \"" + code + "\" but called " + readable);
                std::pmr::vector<Token> tokens;
                if (!tokenize(tokens, code) || tokens.size() != 1 || tokens[0].type != t || tokens[0].pos.length != code.size()) ctx.fail("\"" + code + "\" is not tokenized to " + std::string(token_type_name(t)));
                int kinds = is_arithmetic_operator(t) + is_bitwise_operator(t) + is_comparison_operator(t) + is_logical_operator(t);
                if (kinds > 1) ctx.fail(code + " has several kinds");
                if ((kinds == 1) != (is_unary_operator(t) || is_binary_operator(t))) ctx.fail(code + " is an operator of no kind, or not an operator");
                if (is_relational_comparison_operator(t) && !is_comparison_operator(t)) ctx.fail(code + " is relational but not a comparison");
                if (is_boolean_literal(t) != (code == "true" || code == "false")) ctx.fail(code + ": boolean literal");
                if (is_comment(t) || is_integer_literal(t)) ctx.fail(code + " is a comment or a literal");
                if (is_literal(t) != is_boolean_literal(t)) ctx.fail(code + ": literal");
            }
        }
        else if (c == "expressions") {
            for (int i = 0; i <= int(Expression_Type::id); ++i) {
                auto e = Expression_Type(i);
                if (e == Expression_Type::literal || e == Expression_Type::id || e == Expression_Type::function_call || e == Expression_Type::if_expression || e == Expression_Type::conversion) continue;
                std::string code(expression_type_code_name(e));
                std::pmr::vector<Token> tokens;
                ++ctx.compared;
                ++ctx.transitions;
                if (!tokenize(tokens, code) || tokens.size() != 1) { ctx.fail("operator " + std::to_string(i) + " is spelled " + code); continue; }
                auto t = tokens[0].type;
                if (is_prefix_unary(e) == is_binary(e)) ctx.fail(code + " is both unary and binary, or neither");
                if (is_prefix_unary(e) && !is_unary_operator(t)) ctx.fail(code + " is not a unary operator");
                if (is_binary(e) && !is_binary_operator(t)) ctx.fail(code + " is not a binary operator");
                if (is_binary(e) && is_binary_comparison(e) != is_comparison_operator(t)) ctx.fail(code + ": comparison");
                if (is_binary(e) && is_binary_arithmetic(e) != is_arithmetic_operator(t)) ctx.fail(code + ": arithmetic");
                if (is_binary(e) && is_binary_bitwise(e) != is_bitwise_operator(t)) ctx.fail(code + ": bitwise");
                if (is_binary(e) && is_binary_logical(e) != is_logical_operator(t)) ctx.fail(code + ": logical");
                for (int k = 0; k < i; ++k)
                    if (is_binary(e) && is_binary(Expression_Type(k)) && expression_type_code_name(Expression_Type(k)) == code) ctx.fail("two binary operators are spelled " + code);
                ctx.outcome("operator");
            }
        }
        else if (c == "rules") distinct(ctx, Grammar_Rule::uint, grammar_rule_name);
        else if (c == "annotations") {
            for (std::string_view n : { "immutable", "inline", "loop_variable", "loop_step", "unroll", "c_equivalent", "java_equivalent", "instantiate", "false_if_unknown", "remove_if_unused" }) {
                ++ctx.compared;
                ++ctx.transitions;
                if (!annotation_type_by_name(n)) ctx.fail("no annotation " + std::string(n));
                for (auto m : { std::string(n) + "_", std::string(n).substr(1), std::string(n).substr(0, n.size() - 1), "@" + std::string(n) }) if (annotation_type_by_name(m)) ctx.fail("an annotation " + m);
            }
            ctx.outcome("names");
        }
        else if (c == "analysis") distinct(ctx, Analysis_Error_Code::annotation_missing_argument, analysis_error_code_name);
        else if (c == "evaluation") distinct(ctx, Evaluation_Error_Code::int_overflow, evaluation_error_code_name);
        else if (c == "execution") distinct(ctx, Execution_Error_Code::evaluation, execution_error_code_name);
        else if (c == "types") distinct(ctx, Type_Type::Uint, type_type_name);
        else if (c == "languages") {
            distinct(ctx, bm::bmd::Code_Language::typescript, bm::bmd::code_language_name);
            distinct(ctx, bm::bmd::Code_Language::typescript, bm::bmd::code_language_readable_name);
        }
        else if (c == "directives") {
            using namespace bm::bmd;
            std::map<int, std::string> found;
            // Every identifier of up to three letters, and the known longer ones.
            auto look = [&](const std::string& s) {
                ++ctx.transitions;
                auto d = directive_type_by_id(s);
                if (!d) return;
                ++ctx.compared;
                ctx.outcome("directive");
                if (auto [it, fresh] = found.emplace(int(*d), s); !fresh) ctx.fail("\\" + s + " and \\" + it->second + " are the same directive");
                if (directive_type_is_html_passthrough(*d) && directive_type_tag(*d) == "") ctx.fail("\\" + s + " has no tag");
                (void)directive_type_content_type(*d);
                (void)directive_type_environment(*d);
                (void)directive_type_formatting_style(*d);
            };
            std::string s;
            std::function<void(size_t)> go = [&](size_t n) { look(s); if (n == 0) return; for (char x : std::string_view("abcdefghijklmnopqrstuvwxyz0123456789")) { s += x; go(n - 1); s.pop_back(); } };
            go(3);
        }
        else if (c == "bmd_rules") ctx.outcome("names");
        else {
            ++ctx.compared;
            ++ctx.transitions;
            auto f = Builtin_Function::assert;
            if (builtin_function_name(f) != "assert" || builtin_parameter_count(f) != 1 || builtin_parameter_types(f).size() != 1 || builtin_parameter_types(f)[0] != Concrete_Type::Bool || builtin_return_type(f) != Concrete_Type::Void) ctx.fail("assert is not assert(Bool) -> Void");
            if (!check_builtin_function(f, builtin_parameter_types(f)) || *check_builtin_function(f, builtin_parameter_types(f)) != builtin_return_type(f)) ctx.fail("assert does not take its parameters");
            ctx.outcome("names");
        }
    }
};
Register<Names> r_names;

// ---- listings -------------------------------------------------------------------------------

// Every instruction that programs are compiled to, listed: the listing names the instruction and what it operates on.
struct Listing : Suite {
    const char* name() const override { return "listing"; }
    const char* bound(Tier t) const override { return const_cast<Listing*>(this)->target().bound(t); }
    Suite& target()
    {
        for (auto* s : suites()) if (std::string_view(s->name()) == "typing_statements") return *s;
        std::abort();
    }
    static bool emit_values(const Emit& e, int w) { return e("values " + std::to_string(w)); }
    void enumerate(Tier t, const Emit& e) override
    {
        bool more = true;
        target().enumerate(t, [&](std::string_view s) { return more = e(s); });
        if (!more) return;
        for (int w = 0; w <= 128; ++w) if (!emit_values(e, w)) return;
        for (auto s : { "function f() -> Int { let i: Uint(128) = 0; i = i - 1; while true { let k = i; if k == 3 { break; } else { continue; } } return -170141183460469231731687303715884105727; }", "function f(n: Int, b: Bool) -> Uint(7) { assert(b && !b || n < 3); let x: Uint(7) = 127 as Uint(7); x = ~x ^ x | x & -x; return x; } function g() -> Void { f(-3, true); }" })
            if (!e(s)) return;
    }
    void check(std::string_view c, Ctx& ctx) override
    {
        if (c.starts_with("values ")) {
            std::vector<Instruction> code;
            const int width = std::stoi(std::string(c.substr(7)));
            if (width == 0) code = { ins::Push { {}, Concrete_Value::Void }, ins::Push { {}, Concrete_Value::True }, ins::Push { {}, Concrete_Value::False } };
            for (int bit = 0; bit < 128; ++bit)
                for (int near : { -1, 0, 1 })
                    for (int sign : { 1, -1 }) {
                        const Big_Uint v = ((Big_Uint(1) << bit) + Big_Uint(Big_Int(near))) * Big_Uint(Big_Int(sign));
                        if (width == 0) { code.push_back(ins::Push { {}, Concrete_Value::Int(Big_Int(v)) }); continue; }
                        const auto type = Concrete_Type::Uint(width);
                        code.push_back(ins::Push { {}, Concrete_Value { type, Big_Int(v & type.get_mask()) } });
                    }
            list(ctx, code);
            return;
        }
        Pipeline p { c };
        if (!p.analyzed) { ctx.outcome("not analyzed"); return; }
        list(ctx, std::vector<Instruction>(p.analyzed->get_vm().instructions().begin(), p.analyzed->get_vm().instructions().end()));
    }
    static void list(Ctx& ctx, const std::vector<Instruction>& code)
    {
        std::ostringstream whole;
        dump_program(whole, code);
        std::istringstream lines(whole.str());
        for (auto& i : code) {
            std::string line, expected;
            std::getline(lines, line);
            ++ctx.transitions;
            ++ctx.compared;
            auto offset = [](auto o) { return (o >= 0 ? "+" : "") + std::to_string(o); };
            auto place = [](const void* q) { std::ostringstream o; o << q; return o.str(); };
            auto named = [](std::string_view n) { return n.empty() ? "" : " ; " + std::string(n); };
            auto value = [](Concrete_Value v) -> std::string {
                switch (v.type.type()) {
                case Type_Type::Void: return "Void";
                case Type_Type::Bool: return v.int_value ? "true" : "false";
                case Type_Type::Int: return str(v.int_value);
                case Type_Type::Uint: { Big_Uint u = Big_Uint(v.int_value); std::string r; do { r.insert(r.begin(), char('0' + int(u % 10))); u /= 10; } while (u); return r; }
                }
                return "?";
            };
            if (auto* x = get_if<ins::Load>(&i)) expected = "load " + place(x->source) + named(x->debug_info.name);
            else if (auto* x = get_if<ins::Store>(&i)) expected = "store " + place(x->target) + named(x->debug_info.name);
            else if (auto* x = get_if<ins::Undefine>(&i)) expected = "undefine " + place(x->target) + named(x->debug_info.name);
            else if (auto* x = get_if<ins::Push>(&i)) expected = "push " + value(x->value);
            else if (get_if<ins::Pop>(&i)) expected = "pop";
            else if (auto* x = get_if<ins::Relative_Jump>(&i)) expected = "jump " + offset(x->offset);
            else if (auto* x = get_if<ins::Relative_Jump_If>(&i)) expected = std::string("if ") + (x->expected ? "true" : "false") + " jump " + offset(x->offset);
            else if (get_if<ins::Return>(&i)) expected = "return";
            else if (auto* x = get_if<ins::Convert>(&i)) expected = "convert to " + str(x->type);
            else if (auto* x = get_if<ins::Unary_Operate>(&i)) expected = "unary " + std::string(expression_type_code_name(x->op));
            else if (auto* x = get_if<ins::Binary_Operate>(&i)) expected = "binary " + std::string(expression_type_code_name(x->op));
            else if (auto* x = get_if<ins::Call>(&i)) expected = "call " + std::to_string(x->address);
            else if (auto* x = get_if<ins::Builtin_Call>(&i)) expected = "call builtin " + std::string(builtin_function_name(x->function));
            else { ctx.fail("a break or continue is left in the compiled program"); continue; }
            std::string words;
            for (char q : line) if (q != ' ' || (!words.empty() && words.back() != ' ')) words += q;
            while (!words.empty() && words.back() == ' ') words.pop_back();
            if (words != expected) ctx.fail("listed as \"" + words + "\" instead of \"" + expected + "\"");
            ctx.outcome(expected.substr(0, expected.find(' ')));
        }
        std::string rest;
        if (std::getline(lines, rest)) ctx.fail("more lines than instructions");
    }
};
Register<Listing> r_listing;

}
