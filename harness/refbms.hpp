// Independent reference implementation of BMS: parser (from grammar.ebnf), name lookup, type checker,
// bit-generic instantiation and a tree-walking interpreter.  Shares no code with /repo's
// parser/analyzer/VM; only ref_lex's token kinds (an enum) are taken from there.
#pragma once
#include "ref_lex.hpp"

#include <map>
#include <memory>
#include <optional>
#include <string>
#include <string_view>
#include <vector>

namespace ref {

using TT = bm::bms::Token_Type;
using I128 = __int128;
using U128 = unsigned __int128;

// ---- types and values ----------------------------------------------------------------------

enum class K { Void, Bool, Int, Uint };
struct Ty {
    K k = K::Void;
    int w = 0;
    bool operator==(const Ty&) const = default;
};
inline std::string str(Ty t)
{
    switch (t.k) {
    case K::Void: return "Void";
    case K::Bool: return "Bool";
    case K::Int: return "Int";
    case K::Uint: return "Uint(" + std::to_string(t.w) + ")";
    }
    return "?";
}
inline std::string dec(U128 v)
{
    std::string r;
    do r.insert(r.begin(), char('0' + int(v % 10))); while (v /= 10);
    return r;
}
struct Val {
    Ty t;
    U128 v = 0; // Int: two's complement
    bool operator==(const Val&) const = default;
};
inline std::string str(Val v)
{
    if (v.t.k == K::Bool) return v.v ? "true" : "false";
    if (v.t.k == K::Void) return "Void";
    if (v.t.k == K::Int && I128(v.v) < 0) return "-" + dec(-v.v) + ":Int";
    return dec(v.v) + ":" + str(v.t);
}
inline U128 ones(int w) { return w >= 128 ? ~U128(0) : (U128(1) << w) - 1; }

// What a diagnostic names as its cause: nothing, something in the program or something predefined.
struct Cause { static constexpr size_t nowhere = size_t(-1); bool any = false; size_t pos = nowhere; std::string name {}; };
struct Err { std::string code; size_t pos = 0; Cause cause {}; }; // diagnostic, thrown

// ---- syntax tree ---------------------------------------------------------------------------

enum class N { Program, Function, Params, Param, Type, Const, Let, Static_Assert, Annotations, Annotation,
               Argument, If, While, Break, Continue, Return, Assign, Block, Conversion, If_Expr, Binary,
               Prefix, Call, Id, Literal };

struct Node;
using P = std::shared_ptr<Node>;
struct Node {
    N n;
    std::string text; // name, operator spelling, literal spelling, type name
    std::string text2; // annotation argument: value
    TT tok {}; // literal kind
    std::vector<P> c; // children; null allowed
    bool call_statement = false;
    size_t pos = 0; // byte offset of the defining token

    // -- semantic attributes
    Node* decl = nullptr; // resolved declaration (Const, Let, Param, Function, Id of a generic width)
    bool is_builtin = false;
    Node* loop = nullptr;
    Node* function = nullptr;
    std::optional<Ty> type; // static type
    std::optional<Val> value; // constant value (Const declarations, generic widths, constant expressions)
    // functions
    bool generic = false, generic_width = false;
    int level = 0; // 0 unanalyzed, 1 shallow, 2 full, 3 for constant evaluation
    bool requires_done = false;
    std::vector<std::pair<std::vector<int>, P>> instances;
    P pristine; // unresolved copy of a function, for instantiation
    Node* program = nullptr;
};

inline const char* node_name(N n)
{
    static const char* names[] = { "Program", "Function", "Params", "Param", "Type", "Const", "Let",
                                   "Static_Assert", "Annotations", "Annotation", "Argument", "If", "While",
                                   "Break", "Continue", "Return", "Assign", "Block", "Conversion", "If_Expr",
                                   "Binary", "Prefix", "Call", "Id", "Literal" };
    return names[int(n)];
}

inline void sexp(const Node* p, std::string& out)
{
    if (!p) { out += "_"; return; }
    out += '(';
    out += node_name(p->n);
    if (p->call_statement) out += '!';
    if (!p->text.empty() || p->n == N::Argument) { out += ' '; out += p->text; }
    if (p->n == N::Argument) { out += '='; out += p->text2; out += '#'; out += std::to_string(int(p->tok)); }
    for (auto& c : p->c) { out += ' '; sexp(c.get(), out); }
    out += ')';
}

inline P clone(const P& p)
{
    if (!p) return p;
    auto r = std::make_shared<Node>();
    r->n = p->n; r->text = p->text; r->text2 = p->text2; r->tok = p->tok;
    r->call_statement = p->call_statement; r->pos = p->pos;
    for (auto& c : p->c) r->c.push_back(clone(c));
    return r;
}

// ---- parser --------------------------------------------------------------------------------

struct Syntax_Error { size_t token; }; // index into the comment-free token list; == size() at the end

struct Parser {
    std::string_view src;
    std::vector<Ref_Token> t;
    size_t i = 0;

    Parser(std::string_view s, const std::vector<Ref_Token>& all)
        : src(s)
    {
        for (auto& x : all)
            if (x.type != TT::block_comment && x.type != TT::line_comment) t.push_back(x);
    }
    std::string text(size_t k) const { return std::string(src.substr(t[k].begin, t[k].length)); }
    bool at(TT x) const { return i < t.size() && t[i].type == x; }
    bool at1(TT x) const { return i + 1 < t.size() && t[i + 1].type == x; }
    [[noreturn]] void err() const { throw Syntax_Error { i }; }
    size_t need(TT x) { if (!at(x)) err(); return i++; }
    bool opt(TT x) { if (at(x)) { ++i; return true; } return false; }
    P mk(N n, size_t tok, std::string text = "", std::vector<P> c = {})
    {
        auto p = std::make_shared<Node>();
        p->n = n; p->text = std::move(text); p->c = std::move(c);
        p->pos = tok < t.size() ? t[tok].begin : src.size();
        return p;
    }

    bool arith() const { return at(TT::plus) || at(TT::minus) || at(TT::multiplication) || at(TT::division) || at(TT::remainder); }
    bool cmp() const { return at(TT::equals) || at(TT::not_equals) || at(TT::less_than) || at(TT::greater_than) || at(TT::less_or_equal) || at(TT::greater_or_equal); }
    bool other() const { return at(TT::logical_and) || at(TT::logical_or) || at(TT::shift_left) || at(TT::shift_right) || at(TT::bitwise_and) || at(TT::bitwise_or) || at(TT::bitwise_xor); }
    bool number() const { return at(TT::binary_literal) || at(TT::octal_literal) || at(TT::decimal_literal) || at(TT::hexadecimal_literal); }
    bool boolean() const { return at(TT::keyword_true) || at(TT::keyword_false); }

    P program()
    {
        auto p = mk(N::Program, 0);
        do p->c.push_back(declaration()); while (i < t.size());
        return p;
    }
    P declaration()
    {
        P ann = at(TT::at) ? annotations() : nullptr;
        if (at(TT::keyword_const)) return const_decl(ann);
        if (at(TT::keyword_function)) return function(ann);
        if (!ann && at(TT::keyword_static_assert)) return static_assertion();
        err();
    }
    P annotations()
    {
        auto p = mk(N::Annotations, i);
        while (at(TT::at)) {
            size_t a = i++;
            size_t id = need(TT::identifier);
            auto x = mk(N::Annotation, a, text(id));
            if (opt(TT::left_parenthesis) && !opt(TT::right_parenthesis)) {
                do {
                    auto g = mk(N::Argument, i);
                    if (at(TT::identifier)) { g->text = text(i++); need(TT::assign); }
                    if (!number() && !boolean() && !at(TT::string_literal)) err();
                    g->tok = t[i].type;
                    g->text2 = text(i++);
                    if (g->tok == TT::string_literal) g->text2 = g->text2.substr(1, g->text2.size() - 2);
                    x->c.push_back(g);
                } while (opt(TT::comma));
                need(TT::right_parenthesis);
            }
            p->c.push_back(x);
        }
        return p;
    }
    P const_decl(P ann)
    {
        size_t k = need(TT::keyword_const), id = need(TT::identifier);
        P ty = opt(TT::colon) ? type() : nullptr;
        need(TT::assign);
        P e = expression();
        need(TT::semicolon);
        return mk(N::Const, k, text(id), { ann, ty, e });
    }
    P let_decl(P ann)
    {
        size_t k = need(TT::keyword_let), id = need(TT::identifier);
        P ty = opt(TT::colon) ? type() : nullptr, e;
        if (!ty || at(TT::assign)) { need(TT::assign); e = expression(); }
        need(TT::semicolon);
        return mk(N::Let, k, text(id), { ann, ty, e });
    }
    P static_assertion()
    {
        size_t k = need(TT::keyword_static_assert);
        P e = parenthesized();
        need(TT::semicolon);
        return mk(N::Static_Assert, k, "", { e });
    }
    P function(P ann)
    {
        size_t k = need(TT::keyword_function), id = need(TT::identifier);
        need(TT::left_parenthesis);
        P params;
        if (!at(TT::right_parenthesis)) {
            params = mk(N::Params, i);
            do {
                size_t p = need(TT::identifier);
                need(TT::colon);
                params->c.push_back(mk(N::Param, p, text(p), { type() }));
            } while (opt(TT::comma));
        }
        need(TT::right_parenthesis);
        need(TT::right_arrow);
        P ret = type();
        P req = opt(TT::keyword_requires) ? expression() : nullptr;
        P body = block();
        return mk(N::Function, k, text(id), { ann, params, ret, req, body });
    }
    P type()
    {
        size_t k = i;
        if (opt(TT::keyword_void)) return mk(N::Type, k, "Void", { nullptr });
        if (opt(TT::keyword_bool)) return mk(N::Type, k, "Bool", { nullptr });
        if (opt(TT::keyword_int)) return mk(N::Type, k, "Int", { nullptr });
        if (opt(TT::keyword_uint)) return mk(N::Type, k, "Uint", { parenthesized() });
        err();
    }
    P parenthesized()
    {
        need(TT::left_parenthesis);
        P e = expression();
        need(TT::right_parenthesis);
        return e;
    }
    P block()
    {
        size_t k = need(TT::left_brace);
        auto p = mk(N::Block, k);
        while (!opt(TT::right_brace)) p->c.push_back(statement());
        return p;
    }
    P statement()
    {
        P ann = at(TT::at) ? annotations() : nullptr;
        size_t k = i;
        if (at(TT::keyword_let)) return let_decl(ann);
        if (at(TT::keyword_const)) return const_decl(ann);
        if (at(TT::keyword_if)) return if_statement(ann);
        if (opt(TT::keyword_while)) {
            P e = expression();
            P b = block();
            return mk(N::While, k, "", { ann, e, b });
        }
        if (at(TT::identifier) && (ann || at1(TT::assign))) {
            size_t id = i++;
            need(TT::assign);
            P e = expression();
            need(TT::semicolon);
            return mk(N::Assign, id, text(id), { ann, e });
        }
        if (ann) err();
        if (at(TT::keyword_static_assert)) return static_assertion();
        if (at(TT::identifier)) {
            P p = call();
            p->call_statement = true;
            need(TT::semicolon);
            return p;
        }
        if (opt(TT::keyword_break)) { need(TT::semicolon); return mk(N::Break, k); }
        if (opt(TT::keyword_continue)) { need(TT::semicolon); return mk(N::Continue, k); }
        if (opt(TT::keyword_return)) {
            P e = at(TT::semicolon) ? nullptr : expression();
            need(TT::semicolon);
            return mk(N::Return, k, "", { e });
        }
        if (at(TT::left_brace)) return block();
        err();
    }
    P if_statement(P ann)
    {
        size_t k = need(TT::keyword_if);
        P e = expression(), b = block(), f;
        if (opt(TT::keyword_else)) f = at(TT::keyword_if) ? if_statement(nullptr) : block();
        return mk(N::If, k, "", { ann, e, b, f });
    }
    P call()
    {
        size_t id = need(TT::identifier);
        need(TT::left_parenthesis);
        auto p = mk(N::Call, id, text(id));
        if (!at(TT::right_parenthesis)) do p->c.push_back(expression()); while (opt(TT::comma));
        need(TT::right_parenthesis);
        p->c.push_back(at(TT::at) ? annotations() : nullptr);
        return p;
    }
    P primary()
    {
        size_t k = i;
        if (number() || boolean()) {
            auto p = mk(N::Literal, k, text(k));
            p->tok = t[i++].type;
            return p;
        }
        if (at(TT::identifier)) {
            if (at1(TT::left_parenthesis)) return call();
            ++i;
            return mk(N::Id, k, text(k));
        }
        if (at(TT::left_parenthesis)) return parenthesized();
        err();
    }
    P prefix()
    {
        if (at(TT::plus) || at(TT::minus) || at(TT::logical_not) || at(TT::bitwise_not)) {
            size_t k = i++;
            return mk(N::Prefix, k, text(k), { primary() });
        }
        return primary();
    }
    P arithmetic()
    {
        P l = prefix();
        if (!arith()) return l;
        size_t k = i++;
        return mk(N::Binary, k, text(k), { l, prefix() });
    }
    P binary(P l)
    {
        if (arith()) {
            size_t k = i++;
            l = mk(N::Binary, k, text(k), { l, prefix() });
        }
        else if (other()) {
            size_t k = i++;
            return mk(N::Binary, k, text(k), { l, prefix() });
        }
        if (cmp()) {
            size_t k = i++;
            l = mk(N::Binary, k, text(k), { l, arithmetic() });
        }
        return l;
    }
    P if_expression(P first)
    {
        P l = binary(first);
        size_t k = i;
        if (!opt(TT::keyword_if)) return l;
        P c = binary(prefix());
        need(TT::keyword_else);
        P r = if_expression(prefix());
        P e = mk(N::If_Expr, k, "", { l, c, r });
        e->pos = l->pos;
        return e;
    }
    P expression()
    {
        P p = prefix();
        size_t k = i;
        if (opt(TT::keyword_as)) {
            P e = mk(N::Conversion, k, "", { p, type() });
            e->pos = p->pos;
            return e;
        }
        return if_expression(p);
    }
};

struct Parsed {
    bool lex_error = false, syntax_error = false;
    size_t error_pos = 0; // byte offset of the first token that no valid program can have there
    bool error_at_end = false; // then anywhere from the end of the last token to the end of the source
    size_t error_last_end = 0;
    P root;
};

inline Parsed ref_parse(std::string_view src)
{
    Parsed r;
    Ref_Result l = ref_lex(src);
    if (l.error) { r.lex_error = true; return r; }
    Parser p(src, l.tokens);
    try { r.root = p.program(); }
    catch (const Syntax_Error& e) {
        r.syntax_error = true;
        r.error_at_end = e.token >= p.t.size();
        r.error_last_end = p.t.empty() ? 0 : p.t.back().begin + p.t.back().length;
        r.error_pos = r.error_at_end ? src.size() : p.t[e.token].begin;
    }
    return r;
}

// ---- name lookup ---------------------------------------------------------------------------

// No name may be declared while another declaration of that name is visible, not even in an
// enclosing scope; `assert` is predeclared.
struct Scope {
    Scope* up;
    std::map<std::string, Node*> names;
    Node* find(const std::string& s) const
    {
        for (auto* x = this; x; x = x->up)
            if (auto it = x->names.find(s); it != x->names.end()) return it->second;
        return nullptr;
    }
};

inline Node builtin_assert { N::Function, "assert" };
inline Cause because(const Node* n) { return n == &builtin_assert ? Cause { true, Cause::nowhere, "assert" } : Cause { true, n->pos }; }
inline Cause because(const P& n) { return because(n.get()); }

struct Resolver {
    Node* function = nullptr;
    const std::map<std::string, int>* widths = nullptr; // set while instantiating

    void declare(Scope& s, Node* d, const char* code)
    {
        if (Node* old = s.find(d->text)) throw Err { code, d->pos, because(old) };
        s.names[d->text] = d;
    }
    void program(Node* root)
    {
        Scope builtins { nullptr, { { "assert", &builtin_assert } } };
        Scope g { &builtins, {} };
        for (auto& d : root->c) {
            if (d->n == N::Const) declare(g, d.get(), "failed_to_define_global_const");
            if (d->n == N::Function) {
                d->pristine = clone(d);
                d->program = root;
                declare(g, d.get(), "failed_to_define_function");
            }
        }
        for (auto& d : root->c) {
            if (d->n == N::Const) { expr(d->c[1].get(), g); expr(d->c[2].get(), g); }
            else if (d->n == N::Function) resolve_function(d.get(), g);
            else expr(d->c[0].get(), g);
        }
    }
    void instance(Node* root, Node* f, const std::map<std::string, int>& w)
    {
        Scope builtins { nullptr, { { "assert", &builtin_assert } } };
        Scope g { &builtins, {} };
        for (auto& d : root->c)
            if (d->n == N::Const || d->n == N::Function) g.names[d->text] = d.get();
        widths = &w;
        resolve_function(f, g);
    }
    void resolve_function(Node* f, Scope& g)
    {
        function = f;
        Scope s { &g, {} };
        if (f->c[1])
            for (auto& p : f->c[1]->c) {
                declare(s, p.get(), "failed_to_define_parameter");
                Node* w = p->c[0]->c[0].get();
                if (w && w->n == N::Id && !s.find(w->text)) {
                    w->generic_width = true;
                    w->decl = w;
                    s.names[w->text] = w;
                    if (widths) {
                        w->value = Val { { K::Int }, U128(widths->at(w->text)) };
                        w->type = Ty { K::Int };
                    }
                    else f->generic = true;
                }
                else expr(w, s);
            }
        expr(f->c[2].get(), s);
        expr(f->c[3].get(), s);
        statement(f->c[4].get(), s, nullptr);
        function = nullptr;
    }
    // expressions and types: children left to right
    void expr(Node* n, Scope& s)
    {
        if (!n) return;
        if (n->n == N::Id || n->n == N::Call) {
            n->decl = s.find(n->text);
            if (!n->decl) throw Err { n->n == N::Id ? "reference_to_undefined_variable" : "call_to_undefined_function", n->pos };
            n->is_builtin = n->decl == &builtin_assert;
        }
        size_t k = n->c.size() - (n->n == N::Call); // without annotations
        for (size_t i = 0; i < k; ++i) expr(n->c[i].get(), s);
    }
    void statement(Node* n, Scope& s, Node* loop)
    {
        if (!n) return;
        n->loop = loop;
        n->function = function;
        switch (n->n) {
        case N::Block: {
            Scope in { &s, {} };
            for (auto& c : n->c) statement(c.get(), in, loop);
            break;
        }
        case N::Let:
        case N::Const:
            declare(s, n, "failed_to_define_variable");
            expr(n->c[1].get(), s);
            expr(n->c[2].get(), s);
            break;
        case N::Assign:
            n->decl = s.find(n->text);
            if (!n->decl) throw Err { "assignment_of_undefined_variable", n->pos };
            n->is_builtin = n->decl == &builtin_assert;
            expr(n->c[1].get(), s);
            break;
        case N::If:
            expr(n->c[1].get(), s);
            statement(n->c[2].get(), s, loop);
            statement(n->c[3].get(), s, loop);
            break;
        case N::While:
            expr(n->c[1].get(), s);
            statement(n->c[2].get(), s, n);
            break;
        case N::Return:
        case N::Static_Assert: expr(n->c[0].get(), s); break;
        case N::Call: expr(n, s); break;
        default: break;
        }
    }
};

// ---- operations ----------------------------------------------------------------------------

inline bool convertible(Ty a, Ty b) { return a == b || (a.k == K::Int && b.k == K::Uint); }
inline Ty common_type(Ty a, Ty b)
{
    if (a == b) return a;
    if (a.k == K::Uint && b.k == K::Uint) throw Err { "incompatible_widths" };
    if (a.k == K::Int && b.k == K::Uint) return b;
    if (b.k == K::Int && a.k == K::Uint) return a;
    throw Err { "incompatible_types" };
}
struct Eval_Error { std::string code; }; // run-time error, thrown

inline Val convert(Val v, Ty to)
{
    if (v.t == to) return v;
    if (v.t.k != K::Int || to.k != K::Uint) std::abort();
    if (I128(v.v) < 0 || (v.v & ~ones(to.w))) throw Eval_Error { "int_to_uint_range_error" };
    return { to, v.v };
}
inline bool is_cmp(const std::string& o) { return o == "==" || o == "!=" || o == "<" || o == ">" || o == "<=" || o == ">="; }
inline bool is_arith(const std::string& o) { return o == "+" || o == "-" || o == "*" || o == "/" || o == "%"; }
inline bool is_logical(const std::string& o) { return o == "&&" || o == "||"; }

inline Ty unary_type(const std::string& o, Ty t)
{
    switch (t.k) {
    case K::Void: throw Err { "void_operation" };
    case K::Bool:
        if (o == "!") return t;
        throw Err { o == "~" ? "bool_bitwise" : "bool_arithmetic" };
    case K::Int:
        if (o == "~") throw Err { "int_bitwise" };
        if (o == "!") throw Err { "int_logical" };
        return t;
    case K::Uint:
        if (o == "!") throw Err { "uint_logical" };
        return t;
    }
    std::abort();
}
inline Ty binary_type(Ty a, const std::string& o, Ty b)
{
    if (a.k == K::Void || b.k == K::Void) throw Err { "void_operation" };
    Ty t = common_type(a, b);
    if (t.k == K::Bool) {
        if (is_arith(o)) throw Err { "bool_arithmetic" };
        if (is_logical(o) || o == "==" || o == "!=") return t;
        throw Err { is_cmp(o) ? "bool_relational_comparison" : "bool_bitwise" };
    }
    if (is_logical(o)) throw Err { t.k == K::Int ? "int_logical" : "uint_logical" };
    if (is_cmp(o)) return { K::Bool };
    if (t.k == K::Int && !is_arith(o)) throw Err { "int_bitwise" };
    return t;
}
inline Val unary(const std::string& o, Val a)
{
    if (o == "+") return a;
    if (o == "!") return { a.t, U128(!a.v) };
    if (o == "~") return { a.t, ~a.v & ones(a.t.w) };
    if (a.t.k == K::Int) {
        if (a.v == U128(1) << 127) throw Eval_Error { "int_overflow" };
        return { a.t, -a.v };
    }
    return { a.t, -a.v & ones(a.t.w) };
}
// Sign-magnitude arithmetic, so that nothing relies on the host's signed behaviour.
struct Sm { bool neg; U128 m; };
inline Sm sm(Val v) { return I128(v.v) < 0 ? Sm { true, -v.v } : Sm { false, v.v }; }
inline Val from_sm(Sm s, bool overflow)
{
    const U128 lim = U128(1) << 127;
    if (overflow || s.m > lim || (s.m == lim && !s.neg)) throw Eval_Error { "int_overflow" };
    return { { K::Int }, s.neg ? -s.m : s.m };
}
inline Val binary(Val a, const std::string& o, Val b)
{
    Ty t = common_type(a.t, b.t);
    a = convert(a, t);
    b = convert(b, t);
    const Ty B { K::Bool };
    if (o == "==") return { B, U128(a.v == b.v) };
    if (o == "!=") return { B, U128(a.v != b.v) };
    if (o == "&&") return { B, a.v & b.v };
    if (o == "||") return { B, a.v | b.v };
    if (is_cmp(o)) {
        U128 x = a.v, y = b.v;
        if (t.k == K::Int) { x ^= U128(1) << 127; y ^= U128(1) << 127; }
        return { B, U128(o == "<" ? x < y : o == ">" ? x > y : o == "<=" ? x <= y : x >= y) };
    }
    if (t.k == K::Int) {
        Sm x = sm(a), y = sm(b);
        if (o == "-") { y.neg = !y.neg; }
        if (o == "+" || o == "-") {
            if (x.neg == y.neg) return from_sm({ x.neg, x.m + y.m }, x.m + y.m < x.m);
            return x.m >= y.m ? from_sm({ x.neg && x.m != y.m, x.m - y.m }, false) : from_sm({ y.neg, y.m - x.m }, false);
        }
        if (o == "*") {
            U128 p = x.m * y.m;
            bool ov = y.m != 0 && p / y.m != x.m;
            return from_sm({ x.neg != y.neg && p != 0, p }, ov);
        }
        if (y.m == 0) throw Eval_Error { "division_by_zero" };
        // the smallest integer divided by -1 is not representable, and neither operation is defined
        if (x.neg && x.m == U128(1) << 127 && y.neg && y.m == 1) throw Eval_Error { "int_overflow" };
        if (o == "/") { U128 q = x.m / y.m; return from_sm({ x.neg != y.neg && q != 0, q }, false); }
        U128 r = x.m % y.m;
        return from_sm({ x.neg && r != 0, r }, false);
    }
    const U128 m = ones(t.w);
    if (o == "+") return { t, (a.v + b.v) & m };
    if (o == "-") return { t, (a.v - b.v) & m };
    if (o == "*") return { t, (a.v * b.v) & m };
    if (o == "/" || o == "%") {
        if (b.v == 0) throw Eval_Error { "division_by_zero" };
        return { t, o == "/" ? a.v / b.v : a.v % b.v };
    }
    if (o == "&") return { t, a.v & b.v };
    if (o == "|") return { t, a.v | b.v };
    if (o == "^") return { t, a.v ^ b.v };
    if (b.v >= U128(t.w)) throw Eval_Error { "shift_too_much" };
    return { t, o == "<<" ? (a.v << int(b.v)) & m : a.v >> int(b.v) };
}

// ---- interpreter ---------------------------------------------------------------------------

struct Out_Of_Fuel { };

struct Interp {
    uint64_t fuel;
    uint64_t steps = 0;
    const Node* at = nullptr; // what may fail
    bool wide = false; // some Int is computed, stored or compared that does not fit into 32 bits
    static bool is_wide(Val v) { return v.t.k == K::Int && (I128(v.v) > 2147483647 || I128(v.v) < -I128(2147483648u)); }
    Val store(Val v) { wide |= is_wide(v); return v; }
    struct Frame { std::map<const Node*, Val> vars; };

    void tick() { if (++steps > fuel) throw Out_Of_Fuel {}; }

    Val convert_at(const Node* n, Val v, Ty to) { at = n; return convert(v, to); }
    Val call(Node* f, const std::vector<Val>& args)
    {
        tick();
        Frame fr;
        for (size_t i = 0; i < args.size(); ++i) {
            Node* p = f->c[1]->c[i].get();
            fr.vars[p] = store(convert(args[i], *p->c[0]->type));
        }
        Val result { { K::Void } };
        Flow r = exec(f->c[4].get(), fr, result, *f->c[2]->type);
        at = f;
        if (r != Flow::ret && f->c[2]->type->k != K::Void) throw Eval_Error { "load_uninitialized" };
        return result;
    }
    enum class Flow { next, brk, cont, ret };
    Flow exec(Node* n, Frame& fr, Val& result, Ty ret)
    {
        tick();
        switch (n->n) {
        case N::Block:
            for (auto& c : n->c)
                if (auto f = exec(c.get(), fr, result, ret); f != Flow::next) return f;
            return Flow::next;
        case N::Let:
            if (n->c[2]) fr.vars[n] = store(convert_at(n, eval(n->c[2].get(), fr), *n->type));
            else fr.vars.erase(n); // every execution of the declaration starts uninitialized
            return Flow::next;
        case N::Assign: fr.vars[n->decl] = store(convert_at(n, eval(n->c[1].get(), fr), *n->decl->type)); return Flow::next;
        case N::Const:
        case N::Static_Assert: return Flow::next;
        case N::Call: eval(n, fr); return Flow::next;
        case N::If:
            if (eval(n->c[1].get(), fr).v) return exec(n->c[2].get(), fr, result, ret);
            return n->c[3] ? exec(n->c[3].get(), fr, result, ret) : Flow::next;
        case N::While:
            while (eval(n->c[1].get(), fr).v) {
                auto f = exec(n->c[2].get(), fr, result, ret);
                if (f == Flow::brk) break;
                if (f == Flow::ret) return f;
                tick();
            }
            return Flow::next;
        case N::Break: return Flow::brk;
        case N::Continue: return Flow::cont;
        case N::Return:
            if (n->c[0]) result = store(convert_at(n, eval(n->c[0].get(), fr), ret));
            return Flow::ret;
        default: std::abort();
        }
    }
    Val eval(Node* n, Frame& fr)
    {
        tick();
        switch (n->n) {
        case N::Literal: return *n->value;
        case N::Id: {
            if (n->value) return *n->value;
            auto it = fr.vars.find(n->decl);
            at = n;
            if (it == fr.vars.end()) throw Eval_Error { "load_uninitialized" };
            return it->second;
        }
        case N::Conversion: return store(convert_at(n, eval(n->c[0].get(), fr), *n->c[1]->type));
        case N::Prefix: { Val v = store(eval(n->c[0].get(), fr)); at = n; return store(unary(n->text, v)); }
        case N::If_Expr: {
            bool c = eval(n->c[1].get(), fr).v;
            return store(convert_at(n, eval(n->c[c ? 0 : 2].get(), fr), *n->type));
        }
        case N::Binary: {
            Val l = eval(n->c[0].get(), fr);
            if (n->text == "&&" && !l.v) return l;
            if (n->text == "||" && l.v) return l;
            Val r = eval(n->c[1].get(), fr);
            if (l.t == r.t) { store(l); store(r); }
            at = n;
            return store(binary(l, n->text, r));
        }
        case N::Call: {
            std::vector<Val> args;
            for (size_t i = 0; i + 1 < n->c.size(); ++i) {
                Val a = eval(n->c[i].get(), fr);
                if (!n->is_builtin) a = convert_at(n, a, *n->decl->c[1]->c[i]->c[0]->type);
                args.push_back(a);
            }
            if (n->is_builtin) {
                at = n;
                if (!args[0].v) throw Eval_Error { "assertion_fail" };
                return { { K::Void } };
            }
            return call(n->decl, args);
        }
        default: std::abort();
        }
    }
};

// ---- static semantics ----------------------------------------------------------------------

struct Checker {
    Node* root;
    Interp vm { 200000 };
    std::vector<Node*> stack; // functions under analysis
    unsigned depth = 0;

    enum { shallow = 1, full = 2, consteval_ = 3 };

    void program()
    {
        size_t before;
        do {
            before = count();
            for (auto& d : root->c) {
                if (d->n == N::Function) function(d.get(), full);
                else statement(d.get(), full);
            }
        } while (count() != before);
    }
    size_t count() const
    {
        size_t r = 0;
        for (auto& d : root->c) r += d->instances.size();
        return r;
    }
    template <typename F> auto guarded(F f, size_t pos, Cause cause = {})
    { // run-time errors during constant evaluation are diagnostics
        try { return f(); }
        catch (const Eval_Error& e) { throw Err { "evaluation_error:" + e.code, pos, cause }; }
        catch (Err& e) { if (!e.pos) e.pos = pos; throw; }
    }
    void type(Node* t)
    {
        if (t->type) return;
        if (t->text != "Uint") {
            t->type = Ty { t->text == "Void" ? K::Void : t->text == "Bool" ? K::Bool : K::Int };
            return;
        }
        Node* w = t->c[0].get();
        Val v = constant(w);
        if (v.t.k != K::Int && v.t.k != K::Uint) throw Err { "width_not_integer", w->pos };
        if ((v.t.k == K::Int && I128(v.v) <= 0) || v.v == 0 || v.v > 128) throw Err { "width_invalid", w->pos };
        t->type = Ty { K::Uint, int(v.v) };
    }
    struct Pop { std::vector<Node*>& s; ~Pop() { s.pop_back(); } };
    void function(Node* f, int level)
    {
        if (f->level >= level) return;
        if (f->generic) {
            for (size_t i = 0; i < f->instances.size(); ++i) function(f->instances[i].second.get(), level);
            return;
        }
        stack.push_back(f);
        Pop pop { stack };
        if (f->c[1]) for (auto& p : f->c[1]->c) { type(p->c[0].get()); p->type = p->c[0]->type; }
        type(f->c[2].get());
        if (f->c[3] && !f->requires_done) {
            Val v = constant(f->c[3].get());
            if (v.t.k != K::Bool) throw Err { "requires_clause_not_bool", f->c[3]->pos, because(f) };
            if (!v.v) throw Err { "requires_clause_not_satisfied", f->c[3]->pos, because(f) };
            f->requires_done = true;
        }
        f->level = std::max(f->level, int(shallow));
        if (level >= full) statement(f->c[4].get(), level);
        f->type = f->c[2]->type;
        f->level = level;
    }
    void need_convertible(Ty a, Ty b, size_t pos, Cause cause) { if (!convertible(a, b)) throw Err { "incompatible_types", pos, cause }; }

    void statement(Node* n, int level)
    {
        if (!n) return;
        switch (n->n) {
        case N::Block: for (auto& c : n->c) statement(c.get(), level); break;
        case N::Const: {
            if (n->value) return;
            if (n->c[1]) type(n->c[1].get());
            Val v = constant(n->c[2].get());
            if (n->c[1]) {
                need_convertible(v.t, *n->c[1]->type, n->pos, because(n->c[2]));
                v = guarded([&] { return convert(v, *n->c[1]->type); }, n->pos, because(n->c[2]));
            }
            n->value = v;
            n->type = v.t;
            break;
        }
        case N::Let: {
            if (n->c[1]) type(n->c[1].get());
            if (n->c[2]) {
                Ty t = expr(n->c[2].get(), level);
                if (n->c[1]) need_convertible(t, *n->c[1]->type, n->pos, because(n->c[2]));
                else n->type = t;
            }
            if (n->c[1]) n->type = n->c[1]->type;
            break;
        }
        case N::Static_Assert: {
            if (n->value) return;
            Val v = constant(n->c[0].get());
            n->value = v;
            if (v.t.k != K::Bool) throw Err { "static_assert_expression_not_bool", n->pos, because(n->c[0]) };
            if (!v.v) throw Err { "static_assertion_failed", n->pos, because(n->c[0]) };
            break;
        }
        case N::If:
        case N::While:
            if (expr(n->c[1].get(), level).k != K::Bool) throw Err { "condition_not_bool", n->pos, because(n->c[1]) };
            statement(n->c[2].get(), level);
            if (n->n == N::If) statement(n->c[3].get(), level);
            break;
        case N::Break: if (!n->loop) throw Err { "break_outside_loop", n->pos }; break;
        case N::Continue: if (!n->loop) throw Err { "continue_outside_loop", n->pos }; break;
        case N::Return: {
            Ty r = *n->function->c[2]->type;
            if (!n->c[0]) {
                if (r.k != K::Void) throw Err { "empty_return_in_non_void_function", n->pos, because(n->function->c[2]) };
                return;
            }
            need_convertible(expr(n->c[0].get(), level), r, n->pos, because(n->function->c[2]));
            break;
        }
        case N::Assign: {
            if (n->decl->n == N::Param) throw Err { "assigning_parameter", n->pos, because(n->decl) };
            if (n->decl->n == N::Function) throw Err { "assigning_function", n->pos, because(n->decl) };
            if (n->decl->n == N::Const) throw Err { "assigning_const", n->pos, because(n->decl) };
            if (n->decl->n == N::Id) throw Err { "assigning_const", n->pos, because(n->decl) };
            Ty t = expr(n->c[1].get(), level);
            need_convertible(t, *n->decl->type, n->pos, because(n->c[1]));
            break;
        }
        case N::Call: expr(n, level); break;
        default: std::abort();
        }
    }

    Val literal(Node* n)
    {
        if (n->tok == TT::keyword_true) return { { K::Bool }, 1 };
        if (n->tok == TT::keyword_false) return { { K::Bool }, 0 };
        std::string_view s = n->text;
        int base = n->tok == TT::binary_literal ? 2 : n->tok == TT::octal_literal ? 8 : n->tok == TT::decimal_literal ? 10 : 16;
        if (base == 2 || base == 16) s.remove_prefix(2);
        U128 v = 0;
        for (char ch : s) {
            U128 d = U128(ch <= '9' ? ch - '0' : (ch | 32) - 'a' + 10);
            if (v > (ones(127) - d) / U128(base)) throw Err { "invalid_integer_literal", n->pos };
            v = v * U128(base) + d;
        }
        return { { K::Int }, v };
    }

    // Static type of an expression that is not required to be constant.
    Ty expr(Node* n, int level)
    {
        Ty t = expr_(n, level);
        n->type = t;
        return t;
    }
    Ty expr_(Node* n, int level)
    {
        auto at = [&](auto f) { try { return f(); } catch (Err& e) { if (!e.pos) e.pos = n->pos; throw; } };
        switch (n->n) {
        case N::Literal: return (n->value = literal(n))->t;
        case N::Id: return id(n, false).t;
        case N::Conversion: {
            Ty e = expr(n->c[0].get(), level);
            type(n->c[1].get());
            need_convertible(e, *n->c[1]->type, n->pos, because(n->c[1]));
            return *n->c[1]->type;
        }
        case N::Prefix: { Ty e = expr(n->c[0].get(), level); return at([&] { return unary_type(n->text, e); }); }
        case N::Binary: {
            Ty l = expr(n->c[0].get(), level), r = expr(n->c[1].get(), level);
            return at([&] { return binary_type(l, n->text, r); });
        }
        case N::If_Expr: {
            if (expr(n->c[1].get(), level).k != K::Bool) throw Err { "condition_not_bool", n->pos, because(n->c[1]) };
            Ty l = expr(n->c[0].get(), level), r = expr(n->c[2].get(), level);
            return at([&] { return common_type(l, r); });
        }
        case N::Call: {
            std::vector<Ty> args;
            for (size_t i = 0; i + 1 < n->c.size(); ++i) args.push_back(expr(n->c[i].get(), level));
            return callee(n, args, level == consteval_ ? consteval_ : shallow, nullptr);
        }
        default: std::abort();
        }
    }
    // An id either has a constant value or only a type.
    struct Id_Info { Ty t; std::optional<Val> v; };
    Id_Info id(Node* n, bool constant_context)
    {
        Node* d = n->decl;
        if (d->n == N::Param) {
            if (constant_context) throw Err { "parameter_in_constant_expression", n->pos, because(d) };
            return { *d->type, {} };
        }
        if (d->n == N::Function) throw Err { "function_in_expression", n->pos, because(d) };
        if (d->n == N::Let) {
            if (constant_context) throw Err { "let_variable_in_constant_expression", n->pos, because(d) };
            if (!d->type) throw Err { "use_of_undefined_variable", n->pos, because(d) };
            return { *d->type, {} };
        }
        if (!d->value) throw Err { "use_of_undefined_constant", n->pos, because(d) };
        n->value = d->value;
        return { d->value->t, d->value };
    }
    // Checks a call and makes sure that the callee was analyzed at the given level.  With values,
    // the call is executed.
    Ty callee(Node* n, const std::vector<Ty>& args, int inner, std::vector<Val>* values, Val* result = nullptr)
    {
        if (n->is_builtin) {
            if (args.size() != 1) throw Err { "wrong_number_of_arguments", n->pos, because(n->decl) };
            if (args[0].k != K::Bool) throw Err { "wrong_argument_type", n->pos, because(n->decl) };
            if (values) {
                if (!(*values)[0].v) throw Err { "evaluation_error:assertion_fail", n->pos, because(n->decl) };
                *result = Val { { K::Void } };
            }
            return { K::Void };
        }
        Node* f = n->decl;
        if (f->n != N::Function) throw Err { "call_non_function", n->pos, because(f) };
        size_t params = f->c[1] ? f->c[1]->c.size() : 0;
        if (params != args.size()) throw Err { "wrong_number_of_arguments", n->pos, because(f) };
        if (f->generic) {
            std::vector<int> w;
            std::map<std::string, int> names;
            for (size_t i = 0; i < params; ++i) {
                Node* g = f->c[1]->c[i]->c[0]->c[0].get();
                if (!g || !g->generic_width) continue;
                if (args[i].k != K::Uint) throw Err { "width_deduction_from_non_uint", n->c[i]->pos, because(g) };
                w.push_back(args[i].w);
                names[g->text] = args[i].w;
            }
            Node* inst = nullptr;
            for (auto& x : f->instances) if (x.first == w) inst = x.second.get();
            if (!inst) {
                P copy = clone(f->pristine);
                Resolver r;
                r.instance(root, copy.get(), names);
                inst = copy.get();
                f->instances.push_back({ w, copy });
            }
            n->decl = f = inst;
        }
        if (inner == consteval_)
            for (auto* s : stack) if (s == f) throw Err { "codegen_call_to_unanalyzed", n->pos, because(f) };
        function(f, inner);
        for (size_t i = 0; i < params; ++i) {
            Ty p = *f->c[1]->c[i]->c[0]->type;
            const Cause parameter = because(f->c[1]->c[i]);
            need_convertible(args[i], p, n->pos, parameter);
            if (values) (*values)[i] = guarded([&] { return convert((*values)[i], p); }, n->pos, parameter);
        }
        if (values) {
            vm.steps = 0;
            try { *result = vm.call(f, *values); vm.steps = 0; }
            catch (const Out_Of_Fuel&) { throw Err { "execution_error:infinite_loop", n->pos, because(f) }; }
            catch (const Eval_Error& e) {
                throw Err { (e.code == "load_uninitialized" ? "execution_error:" : "evaluation_error:") + e.code, n->pos, because(vm.at) };
            }
        }
        return *f->c[2]->type;
    }

    // Value of a constant expression.
    Val constant(Node* n)
    {
        Val v = constant_(n);
        n->type = v.t;
        return v;
    }
    Val constant_(Node* n)
    {
        vm.tick();
        switch (n->n) {
        case N::Literal: n->value = literal(n); return *n->value;
        case N::Id: return *id(n, true).v;
        case N::Conversion: {
            Val v = constant(n->c[0].get());
            type(n->c[1].get());
            need_convertible(v.t, *n->c[1]->type, n->pos, because(n->c[1]));
            return guarded([&] { return convert(v, *n->c[1]->type); }, n->pos, because(n->c[1]));
        }
        case N::Prefix: {
            Val v = constant(n->c[0].get());
            return guarded([&] { unary_type(n->text, v.t); return unary(n->text, v); }, n->pos);
        }
        case N::If_Expr: {
            Val c = constant(n->c[1].get());
            if (c.t.k != K::Bool) throw Err { "condition_not_bool", n->pos, because(n->c[1]) };
            Val v;
            Ty l, r;
            if (c.v) { v = constant(n->c[0].get()); l = v.t; r = expr(n->c[2].get(), consteval_); }
            else { l = expr(n->c[0].get(), consteval_); v = constant(n->c[2].get()); r = v.t; }
            return guarded([&] { return convert(v, common_type(l, r)); }, n->pos);
        }
        case N::Binary: {
            Val l = constant(n->c[0].get());
            bool cut = false;
            if (is_logical(n->text)) {
                if (l.t.k != K::Bool) throw Err { "non_bool_logical", n->pos, because(n->c[0]) };
                cut = bool(l.v) == (n->text == "||");
            }
            if (cut) {
                Ty r = expr(n->c[1].get(), consteval_);
                return guarded([&] { binary_type(l.t, n->text, r); return l; }, n->pos);
            }
            Val r = constant(n->c[1].get());
            return guarded([&] { binary_type(l.t, n->text, r.t); return binary(l, n->text, r); }, n->pos);
        }
        case N::Call: {
            std::vector<Val> args;
            std::vector<Ty> types;
            for (size_t i = 0; i + 1 < n->c.size(); ++i) {
                args.push_back(constant(n->c[i].get()));
                types.push_back(args.back().t);
            }
            Val r;
            callee(n, types, consteval_, &args, &r);
            return r;
        }
        default: std::abort();
        }
    }
};

// ---- annotations ---------------------------------------------------------------------------

struct Annotation_Checker {
    struct Param { const char* name; char type; bool optional; bool (*ok)(U128, const std::string&); };
    struct Kind { const char* name; std::vector<N> where; std::vector<Param> params; };
    static const std::vector<Kind>& kinds()
    {
        static const auto nonempty = [](U128, const std::string& s) { return !s.empty(); };
        static const auto range = [](U128 v, const std::string&) { return v >= 1 && v <= 128; };
        static const auto version = [](U128 v, const std::string&) { return v == 89 || v == 90 || v == 99 || v == 11 || v == 17 || v == 23 || v == 29; };
        static const std::vector<Kind> k {
            { "immutable", { N::Let }, {} },
            { "inline", { N::Let, N::Call }, {} },
            { "loop_variable", { N::Let }, {} },
            { "loop_step", { N::Assign }, {} },
            { "unroll", { N::While }, { { "limit", 'i', false, range } } },
            { "c_equivalent", { N::Function }, { { "function", 's', false, nonempty }, { "include", 's', true, nonempty }, { "since", 'i', true, version } } },
            { "java_equivalent", { N::Function }, { { "method", 's', false, nonempty } } },
            { "instantiate", { N::Function }, { { "n", 'i', false, range } } },
            { "false_if_unknown", { N::If }, {} },
            { "remove_if_unused", { N::Function }, {} },
        };
        return k;
    }
    static std::optional<U128> number(std::string_view s, TT kind)
    {
        unsigned base = kind == TT::binary_literal ? 2 : kind == TT::octal_literal ? 8 : kind == TT::decimal_literal ? 10 : 16;
        if (base == 2 || base == 16) s.remove_prefix(2);
        U128 v = 0;
        for (char ch : s) {
            U128 d = U128(ch <= '9' ? ch - '0' : (ch | 32) - 'a' + 10);
            if (v > (ones(127) - d) / base) return {};
            v = v * base + d;
        }
        return v;
    }
    static void one(const Node& a, const Node& target)
    {
        const Kind* k = nullptr;
        for (auto& x : kinds()) if (a.text == x.name) k = &x;
        if (!k) throw Err { "annotation_unknown", a.pos, because(&target) };
        bool here = false;
        for (N n : k->where) here |= n == target.n;
        if (!here) throw Err { "annotation_not_applicable", a.pos, because(&target) };
        std::vector<bool> given(k->params.size());
        for (auto& g : a.c) {
            size_t i = 0;
            if (g->text.empty()) {
                while (i < given.size() && given[i]) ++i;
                if (i == given.size()) throw Err { "annotation_too_many_arguments", g->pos, because(&a) };
            }
            else {
                while (i < given.size() && g->text != k->params[i].name) ++i;
                if (i == given.size()) throw Err { "annotation_unknown_parameter", g->pos, because(&a) };
                if (given[i]) throw Err { "annotation_argument_duplicate", g->pos, because(&a) };
            }
            given[i] = true;
            const char type = g->tok == TT::string_literal ? 's' : g->tok == TT::keyword_true || g->tok == TT::keyword_false ? 'b' : 'i';
            if (type != k->params[i].type) throw Err { "annotation_argument_wrong_type", g->pos, because(&a) };
            U128 v = 0;
            if (type == 'i') {
                auto x = number(g->text2, g->tok);
                if (!x) throw Err { "invalid_integer_literal", g->pos };
                v = *x;
            }
            if (!k->params[i].ok(v, g->text2)) throw Err { "annotation_argument_wrong_value", g->pos, because(&a) };
        }
        for (size_t i = 0; i < given.size(); ++i)
            if (!given[i] && !k->params[i].optional) throw Err { "annotation_missing_argument", a.pos, a.text == "instantiate" ? Cause {} : Cause { true, Cause::nowhere, k->params[i].name } };
    }
    static void walk(const Node* n)
    { // pre-order; a node's own annotations come before everything in it
        if (!n || n->n == N::Annotations) return;
        for (auto& c : n->c)
            if (c && c->n == N::Annotations) for (auto& a : c->c) one(*a, *n);
        for (auto& c : n->c) walk(c.get());
    }
};

// ---- the whole language --------------------------------------------------------------------

struct Program {
    enum Verdict { lex_error, syntax_error, rejected, accepted, undetermined } verdict = rejected;
    Parsed parsed;
    std::string error; // diagnostic of a rejected program
    size_t error_pos = 0;
    Cause cause;
    std::unique_ptr<Checker> checker;

    explicit Program(std::string_view src, uint64_t fuel = 200000)
        : parsed(ref_parse(src))
    {
        if (parsed.lex_error) { verdict = lex_error; return; }
        if (parsed.syntax_error) { verdict = syntax_error; return; }
        checker = std::make_unique<Checker>();
        checker->root = parsed.root.get();
        checker->vm.fuel = fuel;
        try {
            Annotation_Checker::walk(parsed.root.get());
            Resolver r;
            r.program(parsed.root.get());
            checker->program();
            verdict = accepted;
        }
        catch (const Err& e) { error = e.code; error_pos = e.pos; cause = e.cause; }
        catch (const Out_Of_Fuel&) { verdict = undetermined; }
    }
    Node* find(std::string_view name) const
    {
        for (auto& d : parsed.root->c) if ((d->n == N::Function || d->n == N::Const) && d->text == name) return d.get();
        return nullptr;
    }
    struct Outcome { enum { value, error, undetermined } kind; Val v; std::string code; uint64_t steps; bool wide = false; size_t at = 0; };
    Outcome run(Node* f, const std::vector<Val>& args, uint64_t fuel = 20000) const
    {
        Interp in { fuel };
        try { Val v = in.call(f, args); return { Outcome::value, v, "", in.steps, in.wide }; }
        catch (const Eval_Error& e) { return { Outcome::error, {}, e.code, in.steps, false, in.at ? in.at->pos : 0 }; }
        catch (const Out_Of_Fuel&) { return { Outcome::undetermined, {}, "", in.steps }; }
    }
};

} // namespace ref
