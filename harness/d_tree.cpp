// C32: the analyzed program is the parsed program: its nodes correspond one to one, are linked consistently, and carry
// the types, values and declarations that follow from one another.
#include "bms_suite.hpp"

#include "bms/annotation.hpp"
#include "bms/evaluation/builtin_function.hpp"
#include "bms/evaluation/operations.hpp"
#include "bms/instantiate.hpp"

#include <set>

using namespace verif;
namespace {
using namespace bm::bms;

std::string text(const Value& v) { return v.is_known() ? str(v.concrete_value()) : "?:" + str(v.get_type()); }
std::string text(const std::optional<bm::Source_Span>& p)
{
    return p ? std::to_string(p->line) + ":" + std::to_string(p->column) + "@" + std::to_string(p->begin) + "+" + std::to_string(p->length) + " in " + std::string(p->file_name) : "nowhere";
}

struct Checker {
    Ctx& ctx;
    const Parsed_Program& parsed;
    Analyzed_Program& program;
    bool accepted;
    std::set<const ast::Some_Node*> seen {};
    std::set<const Parameter*> parameters {};

    void fail(const ast::Some_Node* n, const std::string& what)
    {
        ctx.fail(std::string(ast::get_node_name(*n)) + " at " + text(ast::get_source_position(*n)) + ": " + what);
    }

    // ---- shape --------------------------------------------------------------------------------

    // Where a node is.
    struct Place {
        const ast::Some_Node* parent = nullptr;
        const ast::Function* function = nullptr;
        const ast::While_Statement* loop = nullptr;
        const ast::If_Statement* condition = nullptr;
        const ast::Block_Statement* block = nullptr;
    };

    std::string debug(const Debug_Info& d) { return std::to_string(int(d.construct)) + " " + (d.pos ? std::to_string(d.pos->begin) + " in " + std::string(d.pos->file_name) : "nowhere") + " '" + std::string(d.name) + "'"; }

    void shape(astp::Handle h, ast::Some_Node* n, const Place& place)
    {
        if ((h == astp::Handle::null) != (n == nullptr)) { ctx.fail(n ? "a node that was not parsed: " + std::string(ast::get_node_name(*n)) : "a parsed node is missing: " + std::string(astp::get_node_name(parsed.get_node(h)))); return; }
        if (!n) return;
        ++ctx.transitions;
        ++ctx.compared;
        if (!seen.insert(n).second) { fail(n, "is in the tree twice"); return; }
        const auto& p = parsed.get_node(h);
        const auto pos = astp::get_source_position(p);
        const bm::Source_Span span { pos, program.get_file_name() };
        if (ast::get_parent(*n) != place.parent || ast::get_parent(std::as_const(*n)) != place.parent) fail(n, "has another parent");
        if (text(ast::get_source_position(*n)) != text(span)) fail(n, "was parsed at " + text(span));
        if (ast::get_surrounding<ast::Function>(*n) != place.function) fail(n, "another function surrounds it");
        if (ast::get_surrounding<ast::While_Statement>(*n) != place.loop) fail(n, "another loop surrounds it");
        if (ast::get_surrounding<ast::If_Statement>(*n) != place.condition) fail(n, "another if surrounds it");
        if (ast::get_surrounding<ast::Block_Statement>(*n) != place.block) fail(n, "another block surrounds it");
        auto is = [&](Construct c, std::string_view name = {}) {
            const std::string want = std::to_string(int(c)) + " " + std::to_string(span.begin) + " in " + std::string(span.file_name) + " '" + std::string(name) + "'";
            if (debug(ast::get_debug_info(*n)) != want || debug(Debug_Info(n)) != want) fail(n, "describes itself as " + debug(ast::get_debug_info(*n)) + " instead of " + want);
        };
        Place inner = place;
        inner.parent = n;
        auto children = [&](std::initializer_list<std::pair<astp::Handle, ast::Some_Node*>> expected) {
            auto c = ast::get_children(*n);
            auto k = ast::get_children(std::as_const(*n));
            if (c.size() != expected.size() || k.size() != expected.size()) { fail(n, "has " + std::to_string(c.size()) + " children"); return; }
            size_t i = 0;
            for (auto& [a, b] : expected) {
                if (c[i] != b || k[i] != b) fail(n, "child " + std::to_string(i) + " is not what it is called");
                ++i;
                shape(a, b, inner);
            }
        };
        auto list = [&](std::span<const astp::Handle> expected, std::span<ast::Some_Node*> got) {
            if (got.size() != expected.size() || ast::get_children(*n).size() != expected.size()) { fail(n, "has " + std::to_string(got.size()) + " children"); return; }
            for (size_t i = 0; i < got.size(); ++i) shape(expected[i], got[i], inner);
        };
        visit([&]<typename P>(const P& q) {
            if constexpr (std::is_same_v<P, astp::Break> || std::is_same_v<P, astp::Continue> || std::is_same_v<P, astp::Return_Statement>) {
                auto* s = get_if<ast::Control_Statement>(n);
                constexpr auto want = std::is_same_v<P, astp::Break> ? ast::Control_Statement_Type::break_ : std::is_same_v<P, astp::Continue> ? ast::Control_Statement_Type::continue_ : ast::Control_Statement_Type::return_;
                if (!s || s->get_type() != want || s->is_break() + s->is_continue() + s->is_return() != 1) { fail(n, "is another statement"); return; }
                is(want == ast::Control_Statement_Type::break_ ? Construct::break_statement : want == ast::Control_Statement_Type::continue_ ? Construct::continue_statement : Construct::return_statement);
                if (s->is_break() != (want == ast::Control_Statement_Type::break_) || s->is_return() != (want == ast::Control_Statement_Type::return_)) fail(n, "says that it is another statement");
                if constexpr (std::is_same_v<P, astp::Return_Statement>) children({ { q.get_expression(), s->get_expression_node() } });
                else if (s->get_expression_node()) fail(n, "has an expression");
            }
            else if constexpr (requires { typename P::AST_Node; }) {
                using A = typename P::AST_Node;
                auto* a = get_if<A>(n);
                if (!a) { fail(n, "was parsed as " + std::string(P::self_name)); return; }
                if (ast::get_node_name(*n) != P::self_name) fail(n, "is called otherwise");
                if (ast::is_expression(*n) != A::is_expression) fail(n, "is an expression, or is none");
                if constexpr (std::is_same_v<A, ast::Program>) { is(Construct::program); list(q.get_children(), a->get_children()); }
                else if constexpr (std::is_same_v<A, ast::Function>) { is(Construct::function, q.name); function(q, n, *a, inner); }
                else if constexpr (std::is_same_v<A, ast::Type>) {
                    is(Construct::type);
                    if (a->get_type() != q.type) fail(n, "is another type");
                    children({ { q.get_width(), a->get_width_node() } });
                }
                else if constexpr (std::is_same_v<A, ast::Const> || std::is_same_v<A, ast::Let>) {
                    is(std::is_same_v<A, ast::Const> ? Construct::constant : Construct::variable, q.name);
                    if (a->get_name() != q.name) fail(n, "has another name");
                    children({ { q.get_type(), a->get_type_node() }, { q.get_initializer(), a->get_initializer_node() } });
                }
                else if constexpr (std::is_same_v<A, ast::Static_Assert>) { is(Construct::static_assertion); children({ { q.get_expression(), a->get_expression_node() } }); }
                else if constexpr (std::is_same_v<A, ast::If_Statement>) {
                    is(Construct::if_statement);
                    inner.condition = a;
                    children({ { q.get_condition(), a->get_condition_node() }, { q.get_if_block(), a->get_if_block_node() }, { q.get_else_block(), a->get_else_node() } });
                }
                else if constexpr (std::is_same_v<A, ast::While_Statement>) {
                    is(Construct::while_statement);
                    inner.loop = a;
                    children({ { q.get_condition(), a->get_condition_node() }, { q.get_block(), a->get_block_node() } });
                }
                else if constexpr (std::is_same_v<A, ast::Assignment>) {
                    is(Construct::assignment, q.name);
                    if (a->get_name() != q.name) fail(n, "has another name");
                    children({ { q.get_expression(), a->get_expression_node() } });
                }
                else if constexpr (std::is_same_v<A, ast::Block_Statement>) {
                    is(Construct::block_statement);
                    inner.block = a;
                    list(q.get_children(), a->get_children());
                    if (a->is_empty() != q.get_children().empty()) fail(n, "is empty, or is not");
                }
                else if constexpr (std::is_same_v<A, ast::Conversion_Expression>) { is(Construct::conversion_expression); children({ { q.get_expression(), a->get_expression_node() }, { q.get_target_type(), a->get_target_type_node() } }); }
                else if constexpr (std::is_same_v<A, ast::If_Expression>) { is(Construct::if_expression); children({ { q.get_left(), a->get_left_node() }, { q.get_condition(), a->get_condition_node() }, { q.get_right(), a->get_right_node() } }); }
                else if constexpr (std::is_same_v<A, ast::Binary_Expression>) {
                    is(Construct::binary_expression);
                    if (a->get_op() != q.op || expression_type_code_name(a->get_expression_type()) != token_type_code_name(q.op) || !is_binary(a->get_expression_type())) fail(n, "has another operator");
                    children({ { q.get_left(), a->get_left_node() }, { q.get_right(), a->get_right_node() } });
                }
                else if constexpr (std::is_same_v<A, ast::Prefix_Expression>) {
                    is(Construct::prefix_expression);
                    if (a->get_op() != q.op || expression_type_code_name(a->get_expression_type()) != token_type_code_name(q.op) || !is_prefix_unary(a->get_expression_type())) fail(n, "has another operator");
                    children({ { q.get_expression(), a->get_expression_node() } });
                }
                else if constexpr (std::is_same_v<A, ast::Function_Call_Expression>) {
                    is(Construct::function_call_expression, q.function);
                    if (a->get_name() != q.function || a->is_statement() != q.is_statement) fail(n, "is another call");
                    if (a->get_argument_count() != q.get_arguments().size()) { fail(n, "has another number of arguments"); return; }
                    for (size_t i = 0; i < a->get_argument_count(); ++i) if (a->get_argument_node(i) != a->get_argument_nodes()[i]) fail(n, "argument " + std::to_string(i) + " is another");
                    list(q.get_arguments(), a->get_argument_nodes());
                }
                else if constexpr (std::is_same_v<A, ast::Id_Expression>) {
                    is(Construct::id_expression, q.identifier);
                    if (a->get_identifier() != q.identifier) fail(n, "is another name");
                }
                else if constexpr (std::is_same_v<A, ast::Literal>) {
                    is(Construct::literal);
                    if (a->get_literal() != q.literal || a->get_type() != q.type) fail(n, "is another literal");
                }
            }
            else fail(n, "is part of the analyzed program");
        }, p);
    }

    void function(const astp::Function& q, ast::Some_Node* n, ast::Function& a, Place inner)
    {
        if (a.get_name() != q.name) fail(n, "has another name");
        inner.function = &a;
        inner.loop = nullptr;
        std::span<const astp::Handle> list;
        if (q.get_parameters() != astp::Handle::null) list = get<astp::Parameter_List>(parsed.get_node(q.get_parameters())).get_children();
        if (a.get_parameter_count() != list.size() || a.get_parameters().size() != list.size()) { fail(n, "has another number of parameters"); return; }
        for (size_t i = 0; i < list.size(); ++i) {
            const auto& x = get<astp::Parameter>(parsed.get_node(list[i]));
            auto& y = a.get_parameters()[i];
            parameters.insert(&y);
            if (y.get_name() != x.name || text(y.get_position()) != text(bm::Source_Span { x.pos, program.get_file_name() })) fail(n, "parameter " + std::to_string(i) + " is another");
            shape(x.get_type(), y.get_type_node(), inner);
        }
        shape(q.get_return_type(), a.get_return_type_node(), inner);
        shape(q.get_requires_clause(), a.get_requires_clause_node(), inner);
        shape(q.get_body(), a.get_body_node(), inner);
        if (!a.is_generic && !a.instances.empty()) fail(n, "is not generic but has instances");
        std::set<std::vector<int>> widths;
        for (auto& i : a.instances) {
            auto* f = get_if<ast::Function>(i.handle);
            if (!f) { fail(n, "an instance is not a function"); continue; }
            if (!widths.insert(std::vector<int>(i.widths.begin(), i.widths.end())).second) fail(n, "two instances for the same widths");
            if (f->is_generic) fail(n, "an instance is generic");
            Place place;
            place.parent = ast::get_parent(*n);
            if (!seen.insert(i.handle).second) { fail(n, "an instance is in the tree twice"); continue; }
            if (ast::get_parent(*i.handle) != place.parent) fail(n, "an instance is elsewhere");
            if (text(ast::get_source_position(*i.handle)) != text(ast::get_source_position(*n))) fail(n, "an instance was parsed elsewhere");
            place.parent = i.handle;
            function(q, i.handle, *f, place);
        }
    }

    // ---- meaning ------------------------------------------------------------------------------

    // All nodes of a declaration, those of instances instead of those of the generic function.
    void meaning(ast::Some_Node* n, ast::Function* inside)
    {
        if (!n) return;
        ++ctx.transitions;
        if (auto* f = get_if<ast::Function>(n)) {
            for (auto& p : f->get_parameters()) meaning(p.get_type_node(), f);
            meaning(f->get_return_type_node(), f);
            meaning(f->get_requires_clause_node(), f);
            meaning(f->get_body_node(), f);
            for (auto& i : f->instances) meaning(i.handle, nullptr);
            if (accepted && !f->is_generic) signature(n, *f);
            return;
        }
        for (auto* c : ast::get_children(*n)) meaning(c, inside);
        if (auto* x = get_if<ast::Id_Expression>(n)) lookup(n, x->lookup_result, x->get_identifier(), inside, x->bit_generic);
        else if (auto* x = get_if<ast::Assignment>(n)) lookup(n, x->lookup_result, x->get_name(), inside, false);
        else if (auto* x = get_if<ast::Function_Call_Expression>(n)) lookup(n, x->lookup_result, x->get_name(), inside, false);
        if (accepted && !(inside && inside->is_generic)) values(n, inside);
    }

    void lookup(const ast::Some_Node* n, const Optional_Lookup_Result& r, std::string_view name, ast::Function* inside, bool generic)
    {
        if (!r) { if (accepted && !generic) fail(n, "refers to nothing"); return; }
        ++ctx.compared;
        visit([&]<typename T>(const T& target) {
            if constexpr (std::is_same_v<T, ast::Some_Node*>) {
                if (!seen.count(target)) { fail(n, "refers to what is not in the tree"); return; }
                const bool call = holds_alternative<ast::Function_Call_Expression>(*n);
                std::string_view found;
                if (auto* d = get_if<ast::Const>(target)) found = d->get_name();
                else if (auto* d = get_if<ast::Let>(target)) found = d->get_name();
                else if (auto* d = get_if<ast::Function>(target)) found = d->get_name();
                // A name of a width refers to the first parameter of that width.
                else if (auto* d = get_if<ast::Id_Expression>(target)) { found = d->get_identifier(); if (!d->bit_generic || ast::get_surrounding<ast::Function>(*target) != inside) fail(n, "refers to a width of something else"); }
                if (found != name) fail(n, "refers to " + std::string(found) + " by the name " + std::string(name));
                if (accepted && call != holds_alternative<ast::Function>(*target)) fail(n, "refers to another kind of declaration");
                if (accepted && holds_alternative<ast::Assignment>(*n) && !holds_alternative<ast::Let>(*target)) fail(n, "assigns a constant");
                const auto* home = ast::get_surrounding<ast::Function>(*target);
                if (home && home != inside) fail(n, "refers to a declaration of another function");
                if (call && accepted && inside && !inside->is_generic && get<ast::Function>(*target).is_generic) fail(n, "calls a generic function instead of an instance");
            }
            else if constexpr (std::is_same_v<T, Parameter*>) {
                if (!parameters.count(target)) { fail(n, "refers to a parameter that is not in the tree"); return; }
                if (target->get_name() != name) fail(n, "refers to " + std::string(target->get_name()) + " by the name " + std::string(name));
                bool mine = false;
                if (inside) for (auto& p : inside->get_parameters()) mine |= &p == target;
                if (!mine) fail(n, "refers to a parameter of another function");
            }
            else if constexpr (std::is_same_v<T, Builtin_Function>) {
                if (builtin_function_name(target) != name) fail(n, "refers to a builtin function of another name");
            }
        }, r);
    }

    void signature(ast::Some_Node* n, ast::Function& f)
    {
        for (auto& p : f.get_parameters()) {
            auto t = p.get_type().concrete_type();
            if (!t) { fail(n, "a parameter has no type"); return; }
        }
        if (!f.get_return_type().concrete_type()) fail(n, "has no return type");
        if (f.get_requires_clause_node()) {
            auto& v = ast::get_const_value(*f.get_requires_clause_node());
            if (!v || !v->is_known() || v->get_type() != Concrete_Type::Bool || !v->as_bool()) fail(n, "a requirement is not true");
        }
        ctx.outcome("function");
    }

    std::optional<Value> of(const ast::Some_Node* n) { return ast::get_const_value(*n); }

    void values(ast::Some_Node* n, ast::Function* inside)
    {
        ++ctx.compared;
        const auto v = of(n);
        if (!v) { fail(n, "was not analyzed"); return; }
        auto want_type = [&](Concrete_Type t) { if (v->get_type() != t) fail(n, "is " + text(*v) + " but of type " + str(t)); };
        auto want = [&](const Value& w) { if (text(*v) != text(w)) fail(n, "is " + text(*v) + " instead of " + text(w)); };
        auto child = [&](const ast::Some_Node* c) { auto x = of(c); return x ? *x : Value::Void; };
        auto computed = [&](const auto& type, const auto& value) {
            if (!type) fail(n, "has operands that it cannot have");
            else want_type(*type);
            if (value) want(*value);
            else if (v->is_known()) fail(n, "is known although it cannot be computed");
            ctx.outcome(value ? value->is_known() ? "known" : "unknown" : "error");
        };
        if (auto* x = get_if<ast::Literal>(n)) {
            const auto l = x->get_literal();
            if (x->get_type() == Token_Type::keyword_true) want(Value::True);
            else if (x->get_type() == Token_Type::keyword_false) want(Value::False);
            else {
                Big_Uint r = 0;
                const int base = x->get_type() == Token_Type::binary_literal ? 2 : x->get_type() == Token_Type::octal_literal ? 8 : x->get_type() == Token_Type::hexadecimal_literal ? 16 : 10;
                size_t i = base == 2 || base == 16 ? 2 : base == 8 ? 1 : 0;
                if (base == 8 && l.size() > 1 && (l[1] == 'o' || l[1] == 'O')) i = 2;
                for (; i < l.size(); ++i) {
                    if (l[i] == '_' || l[i] == '\'') continue;
                    const int d = l[i] <= '9' ? l[i] - '0' : (l[i] | 32) - 'a' + 10;
                    r = r * Big_Uint(base) + Big_Uint(d);
                }
                want(Value::Int(Big_Int(r)));
            }
        }
        else if (auto* x = get_if<ast::Id_Expression>(n)) {
            if (auto* p = get_if<Parameter*>(&x->lookup_result)) { if (auto t = (*p)->get_type().concrete_type()) want(Value::unknown_of_type(*t)); }
            else if (auto* d = get_if<ast::Some_Node*>(&x->lookup_result)) {
                if (auto* c = get_if<ast::Const>(*d)) { if (auto& w = c->const_value()) want(*w); else fail(n, "the constant has no value"); }
                else if (auto* l = get_if<ast::Let>(*d)) { if (auto& w = l->const_value()) want_type(w->get_type()); else fail(n, "the variable has no type"); if (v->is_known()) fail(n, "a variable is constant"); }
                else if (holds_alternative<ast::Id_Expression>(**d)) { if (auto w = of(*d)) want(*w); else fail(n, "the width has no value"); if (!v->is_known() || v->get_type() != Concrete_Type::Int) fail(n, "a width is unknown"); }
            }
            else if (x->bit_generic) { if (!v->is_known() || v->get_type() != Concrete_Type::Int) fail(n, "a width is unknown"); }
        }
        else if (auto* x = get_if<ast::Prefix_Expression>(n)) {
            const auto a = child(x->get_expression_node());
            computed(check_unary_operator(x->get_expression_type(), a.get_type()), evaluate_unary_operator(x->get_expression_type(), a));
        }
        else if (auto* x = get_if<ast::Binary_Expression>(n)) {
            const auto a = child(x->get_left_node()), b = child(x->get_right_node());
            // Where the right operand is not evaluated, the result may be known or not.
            const auto op = x->get_expression_type();
            const bool decided = (op == Expression_Type::logical_and && text(a) == text(Value::False)) || (op == Expression_Type::logical_or && text(a) == text(Value::True));
            if (decided && b.get_type() == Concrete_Type::Bool && b.is_unknown() && v->is_known()) { want(a); ctx.outcome("decided"); }
            else computed(check_binary_operator(a.get_type(), x->get_expression_type(), b.get_type()), evaluate_binary_operator(a, x->get_expression_type(), b));
        }
        else if (auto* x = get_if<ast::If_Expression>(n)) {
            const auto a = child(x->get_left_node()), c = child(x->get_condition_node()), b = child(x->get_right_node());
            const bool first = c.is_known() && c.get_type() == Concrete_Type::Bool && c.as_bool(), second = c.is_known() && c.get_type() == Concrete_Type::Bool && !c.as_bool();
            if (v->is_known() && (first ? b.is_unknown() && a.is_known() : second && a.is_unknown() && b.is_known())) {
                auto t = check_if_expression(a.get_type(), c.get_type(), b.get_type());
                auto r = t ? evaluate_conversion(first ? a : b, *t) : bm::Result<Value, Evaluation_Error_Code>(Evaluation_Error_Code::type_error);
                if (!r) fail(n, "is known although it cannot be computed"); else want(*r);
                ctx.outcome("decided");
            }
            else computed(check_if_expression(a.get_type(), c.get_type(), b.get_type()), evaluate_if_expression(a, c, b));
        }
        else if (auto* x = get_if<ast::Conversion_Expression>(n)) {
            const auto t = x->get_target_type().concrete_type();
            if (!t) fail(n, "has no target type");
            else { computed(t, evaluate_conversion(child(x->get_expression_node()), *t)); }
        }
        else if (auto* x = get_if<ast::Function_Call_Expression>(n)) {
            if (auto* d = get_if<ast::Some_Node*>(&x->lookup_result)) {
                auto& f = get<ast::Function>(**d);
                if (auto t = f.get_return_type().concrete_type()) want_type(*t); else fail(n, "calls a function without a return type");
                if (f.get_parameter_count() != x->get_argument_count()) fail(n, "has another number of arguments");
                else for (size_t i = 0; i < x->get_argument_count(); ++i) {
                    auto t = f.get_parameters()[i].get_type().concrete_type();
                    const auto a = child(x->get_argument_node(i));
                    if (!t || !a.get_type().is_convertible_to(*t)) fail(n, "argument " + std::to_string(i) + " is of another type");
                }
                ctx.outcome(v->is_known() ? "known call" : "unknown call");
            }
        }
        else if (auto* x = get_if<ast::Type>(n)) {
            auto t = x->concrete_type();
            if (!t) { fail(n, "is not concrete"); return; }
            want_type(*t);
            if (auto* w = x->get_width_node()) {
                const auto width = child(w);
                if (!width.is_known() || !width.get_type().is_integer() || Big_Uint(width.concrete_value().int_value) != Big_Uint(t->width())) fail(n, "has the width " + text(width));
            }
        }
        else if (auto* x = get_if<ast::Const>(n)) {
            const auto i = child(x->get_initializer_node());
            if (!v->is_known()) fail(n, "a constant is unknown");
            if (x->get_type_node()) { auto c = x->get_type().concrete_type(); if (!c) fail(n, "has no type"); else if (auto w = evaluate_conversion(i, *c)) want(*w); else fail(n, "has an impossible value"); }
            else want(i);
        }
        else if (auto* x = get_if<ast::Let>(n)) {
            if (x->get_type_node()) { if (auto c = x->get_type().concrete_type()) want_type(*c); else fail(n, "has no type"); }
            else want_type(child(x->get_initializer_node()).get_type());
        }
        else if (auto* x = get_if<ast::Static_Assert>(n)) {
            const auto c = child(x->get_expression_node());
            if (text(c) != text(Value::True)) fail(n, "an assertion holds with " + text(c));
        }
        else if (auto* x = get_if<ast::If_Statement>(n)) { if (child(x->get_condition_node()).get_type() != Concrete_Type::Bool) fail(n, "has a condition that is not Bool"); }
        else if (auto* x = get_if<ast::While_Statement>(n)) { if (child(x->get_condition_node()).get_type() != Concrete_Type::Bool) fail(n, "has a condition that is not Bool"); }
        else if (auto* x = get_if<ast::Control_Statement>(n)) {
            if (x->is_return() && inside) {
                const auto t = inside->get_return_type().concrete_type();
                const auto r = x->get_expression_node() ? child(x->get_expression_node()).get_type() : Concrete_Type::Void;
                if (!t || !r.is_convertible_to(*t)) fail(n, "returns another type");
            }
        }
        else if (auto* x = get_if<ast::Assignment>(n)) {
            const auto a = child(x->get_expression_node()).get_type();
            if (auto* d = get_if<ast::Some_Node*>(&x->lookup_result)) if (auto w = of(*d)) if (!a.is_convertible_to(w->get_type())) fail(n, "assigns another type");
        }
    }
};

void check_tree(std::string_view source, Ctx& ctx)
{
    std::pmr::unsynchronized_pool_resource memory;
    std::pmr::vector<Token> tokens { &memory };
    if (!tokenize(tokens, source)) { ctx.outcome("tokenize error"); return; }
    Parsed_Program parsed { source, &memory };
    if (!parse(parsed, tokens)) { ctx.outcome("parse error"); return; }
    const std::string name = "a.bms";
    Analyzed_Program program { parsed, name, &memory };
    if (program.get_file_name() != name || program.get_source() != source) ctx.fail("the program is of another file");
    Checker before { ctx, parsed, program, false };
    before.shape(parsed.get_root_handle(), program.get_root(), {});
    const bool ok = bool(analyze(program, parsed, &memory));
    Checker after { ctx, parsed, program, ok };
    after.shape(parsed.get_root_handle(), program.get_root(), {});
    after.meaning(program.get_root(), nullptr);
    ctx.outcome(ok ? "accepted" : "rejected");
}

struct Trees_Of : Suite {
    std::string own, inner;
    explicit Trees_Of(std::string inner) : own("tree_" + inner), inner(std::move(inner)) { }
    const char* name() const override { return own.c_str(); }
    Suite& target() const
    {
        for (auto* s : suites()) if (s->name() == inner) return *s;
        std::abort();
    }
    const char* bound(Tier t) const override { return target().bound(t); }
    unsigned hang_seconds() const override { return std::max(20u, target().hang_seconds()); }
    void enumerate(Tier t, const Emit& e) override { target().enumerate(t, e); }
    void check(std::string_view c, Ctx& ctx) override { check_tree(c, ctx); }
};
struct Register_All {
    Register_All()
    {
        for (auto s : { "syntax_edits", "syntax_depth", "syntax_trees", "names_globals", "names_bodies", "typing_statements", "typing_expressions", "operators_partial", "control_flow", "sequences", "calls", "function_ends", "loops", "generic_deduction", "generic_instances", "generic_chains", "assertions", "assertions_dependent", "annotations", "lazy_evaluation", "arguments" }) suites().push_back(new Trees_Of(s));
    }
} register_all;

}
