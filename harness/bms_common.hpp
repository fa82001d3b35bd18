#pragma once
#include "harness.hpp"

#include <map>
#include <memory_resource>

#include "bms/analysis_error.hpp"
#include "bms/analyze.hpp"
#include "bms/analyzed_program.hpp"
#include "bms/ast.hpp"
#include "bms/concrete_value.hpp"
#include "bms/expression_type.hpp"
#include "bms/parsing/astp.hpp"
#include "bms/parsing/parse.hpp"
#include "bms/parsing/parse_error.hpp"
#include "bms/tokenization/tokenize.hpp"
#include "bms/tokenization/tokenize_error.hpp"
#include "bms/tokenization/token.hpp"
#include "bms/tokenization/token_type.hpp"
#include "bms/vm/execution_error.hpp"
#include "bms/vm/instructions.hpp"
#include "bms/vm/vm.hpp"
#include "common/result.hpp"
#include "common/variant.hpp"

namespace bm = bit_manipulation;

namespace verif {

using Big_Int = bm::Big_Int;
using Big_Uint = bm::Big_Uint;

inline std::string str(Big_Int v)
{
    bool neg = v < 0;
    Big_Uint u = neg ? -Big_Uint(v) : Big_Uint(v);
    std::string r;
    do { r += char('0' + int(u % 10)); u /= 10; } while (u);
    if (neg) r += '-';
    return { r.rbegin(), r.rend() };
}

inline std::string error_name(const bm::bms::Analysis_Error& e)
{
    std::string r(bm::bms::analysis_error_code_name(e.code()));
    if (e.code() == bm::bms::Analysis_Error_Code::evaluation_error)
        r += ":" + std::string(bm::bms::evaluation_error_code_name(e.evaluation_error()));
    if (e.code() == bm::bms::Analysis_Error_Code::execution_error)
        r += ":" + std::string(bm::bms::execution_error_code_name(e.execution_error()));
    return r;
}

// Outcome of running one function to completion on the real virtual machine.
struct Run {
    enum Kind { value, error, steps_exceeded, bad } kind = bad;
    bm::bms::Concrete_Value result;
    std::string error_code; // "division_by_zero", "load_uninitialized", ...
    uint64_t steps = 0;
    std::optional<size_t> error_begin; // what failed
};

// The whole real pipeline: tokenize, parse, analyze.
struct Pipeline {
    enum Stage { tokenize, parse, analyze, done };
    std::string source;
    std::pmr::unsynchronized_pool_resource memory;
    std::pmr::vector<bm::bms::Token> tokens { &memory };
    std::optional<bm::bms::Parsed_Program> parsed;
    std::optional<bm::bms::Analyzed_Program> analyzed;
    Stage stage = tokenize;
    std::string error;
    std::optional<size_t> error_line, cause_line, error_begin;
    std::optional<bm::bms::Analysis_Error> analysis_error;

    explicit Pipeline(std::string_view src, Stage until = done)
        : source(src)
    {
        if (auto r = bm::bms::tokenize(tokens, source); !r) {
            error = name_of(r.error().code);
            error_line = r.error().pos.line;
            error_begin = r.error().pos.begin;
            return;
        }
        stage = parse;
        if (until == parse) return;
        parsed.emplace(source, &memory);
        if (auto r = bm::bms::parse(*parsed, tokens); !r) {
            error = "parse_error";
            error_line = r.error().fail_token.pos.line;
            error_begin = r.error().fail_token.pos.begin;
            return;
        }
        stage = analyze;
        if (until == analyze) return;
        analyzed.emplace(*parsed, "case.bms", &memory);
        if (auto r = bm::bms::analyze(*analyzed, *parsed, &memory); !r) {
            error = error_name(r.error());
            if (auto p = r.error().fail_pos()) { error_line = p->line; error_begin = p->begin; }
            if (auto p = r.error().cause_pos()) cause_line = p->line;
            analysis_error = r.error();
            return;
        }
        stage = done;
    }
    bool ok() const { return stage == done; }

    std::optional<bm::bms::Concrete_Value> const_value(std::string_view name)
    {
        auto c = analyzed->find_global_constant(name);
        if (!c || !(*c)->const_value() || !(*c)->const_value()->is_known()) return {};
        return (*c)->const_value()->concrete_value();
    }

    const bm::bms::ast::Function* function(std::string_view name)
    {
        auto f = analyzed->find_global_function(name);
        return f ? *f : nullptr;
    }

    Run run(const bm::bms::ast::Function& f, const std::vector<bm::bms::Concrete_Value>& args,
            uint64_t max_steps, bool reset = true)
    {
        Run r;
        auto& vm = analyzed->get_vm();
        if (f.vm_address == bm::bms::ast::Function::invalid_vm_address) {
            r.error_code = "no vm address";
            return r;
        }
        if (reset) vm.reset();
        const size_t base = vm.stack_size();
        vm.jump_to(f.vm_address);
        for (auto& a : args) vm.push(a);
        while (true) {
            if (r.steps >= max_steps) { r.kind = Run::steps_exceeded; return r; }
            ++r.steps;
            auto c = vm.cycle();
            if (c) continue;
            if (c.error().code == bm::bms::Execution_Error_Code::pop_call) break;
            r.kind = Run::error;
            r.error_code = c.error().code == bm::bms::Execution_Error_Code::evaluation
                ? std::string(evaluation_error_code_name(c.error().evaluation_error))
                : std::string(execution_error_code_name(c.error().code));
            if (c.error().debug_info.pos) r.error_begin = c.error().debug_info.pos->begin;
            return r;
        }
        if (vm.stack_size() != base + 1) {
            r.error_code = "stack has " + std::to_string(vm.stack_size() - base) + " values after return";
            return r;
        }
        r.kind = Run::value;
        r.result = vm.pop();
        return r;
    }
};

inline std::string str(bm::bms::Concrete_Type t)
{
    using enum bm::bms::Type_Type;
    switch (t.type()) {
    case Void: return "Void";
    case Bool: return "Bool";
    case Int: return "Int";
    case Uint: return "Uint(" + std::to_string(t.width()) + ")";
    }
    return "?";
}
inline std::string str(const bm::bms::Concrete_Value& v) { return str(v.int_value) + ":" + str(v.type); }

} // namespace verif
