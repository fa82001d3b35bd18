// C15, C24, C26: the containers, vocabulary types and helpers everything else is built on, each
// explored by all operation histories / inputs of a bound against a model written from its
// documentation.
#include <fstream>
#include <map>
#include <memory_resource>
#include <sys/stat.h>
#include <unistd.h>
#include <filesystem>

#include "bms_suite.hpp"
#include "ref_lex.hpp"
#include "bms/symbol_table.hpp"
#include "bms/vm/linear_map_stack.hpp"
#include "common/diagnostics.hpp"
#include "common/io.hpp"
#include "common/parse.hpp"
#include "common/to_string.hpp"
#include "common/tribool.hpp"
#include "common/variant.hpp"

using namespace verif;
namespace b = bm::bms;
namespace {

std::vector<int> digits(std::string_view c)
{
    std::vector<int> r;
    for (char x : c) r.push_back(x >= 'a' ? x - 'a' + 10 : x - '0');
    return r;
}
Strings letters(int n)
{
    Strings r;
    for (int i = 0; i < n; ++i) r.push_back(std::string(1, i < 10 ? char('0' + i) : char('a' + i - 10)));
    return r;
}

// ---- C15: symbol tables --------------------------------------------------------------------

// Three nested scopes; operations: emplace (scope, name of 2, shadow or not), re-creation of a scope.
// After every operation every scope answers for every name what the model answers.
struct Scopes : Suite {
    const char* name() const override { return "symbol_tables"; }
    const char* bound(Tier t) const override
    {
        return t == Tier::quick ? "all histories of <=5 of 16 operations (emplace with/without shadowing of 2 names into 3 nested tables, leaving and re-entering an inner table, moving a table) with lookups of 3 names in every table after each"
                                : "the same with <=6 operations";
    }
    static constexpr int ops = 16;
    void enumerate(Tier t, const Emit& emit) override
    {
        for (size_t n = 1; n <= (t == Tier::quick ? 5u : 6u); ++n) if (!all_sequences(letters(ops), n, "", emit)) return;
    }
    void check(std::string_view c, Ctx& ctx) override
    {
        using T = b::Symbol_Table;
        static const char* names[] = { "x", "y", "z" };
        std::pmr::unsynchronized_pool_resource memory;
        auto node = [](int i) { return reinterpret_cast<b::ast::Some_Node*>(uintptr_t(4096 + 16 * i)); };
        auto t0 = std::make_unique<T>(&memory);
        auto t1 = std::make_unique<T>(T::From_Parent_Tag {}, *t0);
        auto t2 = std::make_unique<T>(T::From_Parent_Tag {}, *t1, &memory);
        std::map<std::string, int> m[3];
        auto model = [&](int k, const std::string& n) {
            for (int i = k; i >= 0; --i) if (auto f = m[i].find(n); f != m[i].end()) return f->second;
            return -1;
        };
        int step = 0;
        for (int op : digits(c)) {
            ++ctx.transitions;
            ++step;
            std::unique_ptr<T>* ts[] = { &t0, &t1, &t2 };
            if (op < 12) {
                const int k = op % 3;
                const std::string n = names[op / 3 % 2];
                const bool shadow = op >= 6;
                const int mine = m[k].count(n) ? m[k][n] : -1, outer = k ? model(k - 1, n) : -1;
                const int conflict = !shadow && outer >= 0 ? outer : mine;
                auto r = (*ts[k])->emplace(names[op / 3 % 2], node(step), shadow);
                if ((r.index() == 0) != (conflict < 0)) return ctx.fail(conflict < 0 ? "emplace refuses a name that is free" : "emplace accepts a name that is in use");
                if (conflict < 0) {
                    m[k][n] = step;
                    auto it = get<0>(r);
                    if (it->first != n || !(it->second == node(step))) return ctx.fail("emplace returns an iterator to something else");
                }
                else if (!(get<1>(r) == node(conflict))) return ctx.fail("emplace returns the wrong existing symbol");
            }
            else if (op == 12) { t2 = std::make_unique<T>(T::From_Parent_Tag {}, *t1); m[2].clear(); }
            else if (op == 13) { t2.reset(); t1 = std::make_unique<T>(T::From_Parent_Tag {}, *t0); t2 = std::make_unique<T>(T::From_Parent_Tag {}, *t1); m[1].clear(); m[2].clear(); }
            else if (op == 14) t2 = std::make_unique<T>(std::move(*t2));
            else { T other(T::From_Parent_Tag {}, *t1); other = std::move(*t2); t2 = std::make_unique<T>(std::move(other)); }
            for (int k = 0; k < 3; ++k)
                for (auto n : names) {
                    ++ctx.compared;
                    auto r = (*ts[k])->find(n);
                    const int want = model(k, n);
                    if (bool(r) != (want >= 0)) return ctx.fail(std::string("table ") + char('0' + k) + (want >= 0 ? " does not find " : " finds ") + n);
                    if (r && !(*r == node(want))) return ctx.fail(std::string("table ") + char('0' + k) + " finds another " + n);
                }
        }
        ctx.outcome("histories");
    }
};
Register<Scopes> r0;

// ---- C15: variables and frames of the VM ---------------------------------------------------

struct Frames : Suite {
    const char* name() const override { return "frame_stacks"; }
    const char* bound(Tier t) const override
    {
        return t == Tier::quick ? "all histories of <=6 of 12 operations (emplace, assign, erase of 3 keys, push and pop of frames, clear) with lookups of all keys after each" : "the same with <=7 operations";
    }
    void enumerate(Tier t, const Emit& emit) override
    {
        for (size_t n = 1; n <= (t == Tier::quick ? 6u : 7u); ++n) if (!all_sequences(letters(12), n, "", emit)) return;
    }
    void check(std::string_view c, Ctx& ctx) override
    {
        std::pmr::unsynchronized_pool_resource memory;
        b::Linear_Map_Stack s(&memory);
        static const char keys[3] {};
        struct Frame { int sentinel; std::map<int, int> vars; };
        std::vector<Frame> m(1);
        m[0].sentinel = -1;
        int step = 100;
        auto v = [](int i) { return i; };
        auto val = [](int i) { return b::Concrete_Value::Int(i); };
        auto num = [](const b::Concrete_Value& x) { return x.type == b::Concrete_Type::Int ? int(x.int_value) : -99; };
        for (int op : digits(c)) {
            ++ctx.transitions;
            ++step;
            auto& top = m.back();
            const int k = op % 3;
            if (op < 3) {
                auto r = s.emplace(&keys[k], val(step));
                const bool fresh = !top.vars.count(k);
                if (bool(r) != fresh) return ctx.fail(fresh ? "emplace refuses a new key" : "emplace accepts an existing key");
                auto* e = r ? *r : r.error();
                if (fresh) top.vars[k] = step;
                if (e->key != &keys[k] || num(e->value) != v(top.vars[k])) return ctx.fail("emplace returns another entry");
            }
            else if (op < 6) {
                auto& e = s.assign(&keys[k], val(step));
                top.vars[k] = step;
                if (e.key != &keys[k] || num(e.value) != v(step)) return ctx.fail("assign returns another entry");
            }
            else if (op < 9) { s.erase(&keys[k]); top.vars.erase(k); }
            else if (op == 9) { s.push_frame(val(step)); m.push_back({ step, {} }); }
            else if (op == 10) {
                auto r = s.pop_frame();
                if (bool(r) != (m.size() > 1)) return ctx.fail("pop_frame disagrees about the existence of a frame");
                if (r) {
                    if (num(*r) != v(m.back().sentinel)) return ctx.fail("pop_frame returns another frame's value");
                    m.pop_back();
                }
            }
            else { s.clear(); m.resize(1); m[0].vars.clear(); }
            for (int i = 0; i < 3; ++i) {
                ++ctx.compared;
                auto* e = s.find(&keys[i]);
                auto f = m.back().vars.find(i);
                if ((e != nullptr) != (f != m.back().vars.end())) return ctx.fail(e ? "a key is found that is not in the current frame" : "a key of the current frame is not found");
                if (e && (e->key != &keys[i] || num(e->value) != v(f->second))) return ctx.fail("a key has another value");
            }
        }
        // what is below must be intact
        while (true) {
            ++ctx.compared;
            for (int i = 0; i < 3; ++i) {
                auto* e = s.find(&keys[i]);
                auto f = m.back().vars.find(i);
                if ((e != nullptr) != (f != m.back().vars.end()) || (e && num(e->value) != v(f->second))) return ctx.fail("a frame further down has changed");
            }
            auto r = s.pop_frame();
            if (bool(r) != (m.size() > 1) || (r && num(*r) != v(m.back().sentinel))) return ctx.fail("frames further down have changed");
            if (!r) break;
            m.pop_back();
        }
        ctx.outcome("histories");
    }
};
Register<Frames> r1;

// Tables and frames of every size.
struct Table_Sizes : Suite {
    const char* name() const override { return "table_sizes"; }
    unsigned hang_seconds() const override { return 60; }
    const char* bound(Tier) const override { return "a table with n symbols, a chain of n tables, a frame with n variables and n frames with variables, with all lookups while they grow and while they shrink, for every n in 0..130, 255..257, 511..513, 1023..1025"; }
    void enumerate(Tier, const Emit& emit) override
    {
        std::vector<int> ns;
        for (int i = 0; i <= 130; ++i) ns.push_back(i);
        for (int k : { 256, 512, 1024 }) for (int d : { -1, 0, 1 }) ns.push_back(k + d);
        for (int n : ns)
            for (int t = 0; t < 5; ++t)
                if (!emit(std::to_string(t) + " " + std::to_string(n))) return;
    }
    void check(std::string_view c, Ctx& ctx) override
    {
        std::istringstream words { std::string(c) };
        int t, n;
        words >> t >> n;
        std::pmr::unsynchronized_pool_resource memory;
        auto node = [](int i) { return reinterpret_cast<b::ast::Some_Node*>(uintptr_t(4096 + 16 * i)); };
        static const auto names = [] { Strings r; for (int i = 0; i < 1100; ++i) r.push_back((i % 3 ? "name" : i % 2 ? "v" : "some_very_long_name_of_a_variable") + std::to_string(i)); return r; }();
        static const char keys[1100] {};
        auto val = [](int i) { return b::Concrete_Value::Int(i); };
        auto num = [](const b::Concrete_Value& x) { return x.type == b::Concrete_Type::Int ? int(x.int_value) : -99; };
        auto seen = [&](const b::Optional_Lookup_Result& r, int want) {
            ++ctx.compared;
            ++ctx.transitions;
            return want < 0 ? !r : r && *r == node(want);
        };
        if (t == 0) { // n symbols in one table, asked for there and in one inside
            b::Symbol_Table outer(&memory), inner(b::Symbol_Table::From_Parent_Tag {}, outer);
            for (int i = 0; i < n; ++i) {
                if (outer.emplace(names[size_t(i)], node(i), i % 2 == 0).index() != 0) return ctx.fail("emplace refuses a name that is free");
                auto again = outer.emplace(names[size_t(i / 2)], node(i + 5000), i % 2 == 0);
                if (again.index() != 1 || !(get<1>(again) == node(i / 2))) return ctx.fail("emplace accepts a name that is in use");
                if (inner.emplace(names[size_t(i / 3)], node(i), false).index() != 1) return ctx.fail("emplace shadows");
            }
            for (int i = 0; i < n + 3; ++i)
                if (!seen(outer.find(names[size_t(i)]), i < n ? i : -1) || !seen(inner.find(names[size_t(i)]), i < n ? i : -1)) return ctx.fail("symbol " + std::to_string(i) + " of " + std::to_string(n) + " is not answered correctly");
        }
        else if (t == 1) { // n tables one within another; every third shadows a name of the first
            std::vector<std::unique_ptr<b::Symbol_Table>> chain;
            chain.push_back(std::make_unique<b::Symbol_Table>(&memory));
            chain[0]->emplace("first", node(0), false);
            int shadow = 0;
            std::vector<int> last { 0 };
            for (int i = 1; i <= n; ++i) {
                chain.push_back(std::make_unique<b::Symbol_Table>(b::Symbol_Table::From_Parent_Tag {}, *chain.back()));
                auto& s = *chain.back();
                if (s.emplace(names[size_t(i)], node(i), false).index() != 0) return ctx.fail("emplace refuses a name that is free");
                auto r = s.emplace("first", node(i), i % 50 == 3);
                if ((r.index() == 0) != (i % 50 == 3)) return ctx.fail("shadowing at depth " + std::to_string(i));
                if (r.index() == 1 && !(get<1>(r) == node(shadow))) return ctx.fail("the declaration in the way at depth " + std::to_string(i) + " is another one");
                if (i % 50 == 3) shadow = i;
                last.push_back(shadow);
                if (!seen(s.find(names[1]), 1) || !seen(s.find(names[size_t(i / 2 + 1)]), i / 2 + 1 <= i ? i / 2 + 1 : -1)) return ctx.fail("name of an outer table is lost at depth " + std::to_string(i));
            }
            for (int i = n; i >= 0; --i) {
                if (!seen(chain.back()->find("first"), last[size_t(i)])) return ctx.fail("depth " + std::to_string(i) + " finds another declaration");
                if (!seen(chain.back()->find(names[size_t(i + 1)]), -1)) return ctx.fail("depth " + std::to_string(i) + " finds a name of a scope that was left");
                chain.pop_back();
            }
        }
        else {
            b::Linear_Map_Stack s(&memory);
            auto has = [&](int k, int want) {
                ++ctx.compared;
                ++ctx.transitions;
                auto* e = s.find(&keys[k]);
                return want < 0 ? e == nullptr : e != nullptr && e->key == &keys[k] && num(e->value) == want;
            };
            if (t == 2) { // n variables in one frame
                if (n % 2) s.push_frame(val(77));
                for (int i = 0; i < n; ++i) {
                    if (i % 2) s.assign(&keys[i], val(i));
                    else if (!s.emplace(&keys[i], val(i))) return ctx.fail("emplace refuses a new key");
                    s.assign(&keys[i / 2], val(i / 2));
                    if (s.emplace(&keys[i / 3], val(1))) return ctx.fail("emplace accepts an existing key");
                }
                for (int i = 0; i < n + 2; ++i) if (!has(i, i < n ? i : -1)) return ctx.fail("variable " + std::to_string(i) + " of " + std::to_string(n));
                for (int i = 0; i < n; i += 3) s.erase(&keys[i]);
                for (int i = 0; i < n + 2; ++i) if (!has(i, i < n && i % 3 ? i : -1)) return ctx.fail("variable " + std::to_string(i) + " of " + std::to_string(n) + " after others were removed");
                auto r = s.pop_frame();
                if (bool(r) != (n % 2 == 1) || (r && num(*r) != 77)) return ctx.fail("pop_frame disagrees about the frame");
                if (r) for (int i = 0; i < n; ++i) if (!has(i, -1)) return ctx.fail("variables survive their frame");
            }
            else if (t == 3) { // n frames with three variables each
                for (int i = 0; i < n; ++i) {
                    s.push_frame(val(i));
                    for (int k = 0; k < 4; ++k) if (!has(k, -1)) return ctx.fail("a caller's variable is visible in frame " + std::to_string(i));
                    for (int k = 0; k < 3; ++k) s.assign(&keys[k], val(i * 3 + k));
                }
                for (int i = n - 1; i >= 0; --i) {
                    for (int k = 0; k < 3; ++k) if (!has(k, i * 3 + k)) return ctx.fail("variable in frame " + std::to_string(i) + " of " + std::to_string(n));
                    auto r = s.pop_frame();
                    if (!r || num(*r) != i) return ctx.fail("frame " + std::to_string(i) + " is not the one that is removed");
                }
                if (s.pop_frame() || !has(0, -1)) return ctx.fail("something is left after the last frame");
            }
            else { // frames of 0, 1, ... variables, up to n in all
                int total = 0, f = 0;
                for (; total + f <= n; ++f) {
                    s.push_frame(val(1000 + f));
                    for (int k = 0; k < f; ++k) s.assign(&keys[k], val(total + k));
                    total += f;
                }
                while (f-- > 0) {
                    total -= f;
                    for (int k = 0; k < f + 2; ++k) if (!has(k, k < f ? total + k : -1)) return ctx.fail("variable " + std::to_string(k) + " in the frame of " + std::to_string(f));
                    auto r = s.pop_frame();
                    if (!r || num(*r) != 1000 + f) return ctx.fail("another frame is removed");
                }
                if (s.pop_frame()) return ctx.fail("something is left after the last frame");
            }
        }
        ctx.outcome("sizes");
    }
};
Register<Table_Sizes> r_sizes;

// ---- C24: Variant and Result ---------------------------------------------------------------

// Objects that know whether they are alive; N distinguishes types; value 0 means moved from.
std::set<const void*>* alive;
bool life_error;
int copies_until_throw;
template <int N, bool Nothrow_Copy> struct Tracked {
    int value;
    void born()
    {
        if (!alive->insert(this).second) life_error = true;
    }
    void must_live() const { if (!alive->count(this)) life_error = true; }
    explicit Tracked(int v = 7) : value(v) { born(); }
    Tracked(const Tracked& o) noexcept(Nothrow_Copy) : value(o.value)
    {
        o.must_live();
        if constexpr (!Nothrow_Copy) if (copies_until_throw >= 0 && copies_until_throw-- == 0) throw 1;
        born();
    }
    Tracked(Tracked&& o) noexcept : value(o.value) { o.must_live(); o.value = 0; born(); }
    Tracked& operator=(const Tracked& o) noexcept(Nothrow_Copy)
    {
        must_live();
        o.must_live();
        if constexpr (!Nothrow_Copy) if (copies_until_throw >= 0 && copies_until_throw-- == 0) throw 1;
        value = o.value;
        return *this;
    }
    Tracked& operator=(Tracked&& o) noexcept
    {
        must_live();
        o.must_live();
        const int v = o.value;
        o.value = 0;
        value = v;
        return *this;
    }
    ~Tracked() { if (!alive->erase(this)) life_error = true; }
    friend bool operator==(const Tracked& x, const Tracked& y) { x.must_live(); y.must_live(); return x.value == y.value; }
};
using A = Tracked<0, true>;
using B = Tracked<1, false>;
struct C { int value; friend bool operator==(C, C) = default; };

struct Variants : Suite {
    using V = bm::Variant<A, B, C>;
    const char* name() const override { return "variants"; }
    const char* bound(Tier t) const override { return t == Tier::quick ? "all histories of <=4 of 26 operations (construct, copy, move, assign, self-assign, compare; a copy that throws) on two variants of three alternatives with instrumented lifetimes" : "the same with <=5 operations"; }
    static constexpr int ops = 26;
    void enumerate(Tier t, const Emit& emit) override
    {
        for (size_t n = 1; n <= (t == Tier::quick ? 4u : 5u); ++n) if (!all_sequences(letters(ops), n, "", emit)) return;
    }
    struct M { int index, value; };
    static int value_of(const V& v) { return visit([](auto& x) { return x.value; }, v); }
    void check(std::string_view c, Ctx& ctx) override
    {
        std::set<const void*> live;
        alive = &live;
        life_error = false;
        copies_until_throw = -1;
        {
            auto x = std::make_unique<V>(), y = std::make_unique<V>(B(8));
            M m[2] { { 0, 7 }, { 1, 8 } };
            std::unique_ptr<V>* v[] = { &x, &y };
            int step = 10;
            for (int op : digits(c)) {
                ++ctx.transitions;
                ++step;
                const int i = op & 1, j = 1 - i;
                V &a = **v[i], &o = **v[j];
                auto moved = [](M s) { return M { s.index, s.index == 2 ? s.value : 0 }; };
                switch (op >> 1) {
                case 0: a = A(step); m[i] = { 0, step }; break;
                case 1: a = B(step); m[i] = { 1, step }; break;
                case 2: a = C { step }; m[i] = { 2, step }; break;
                case 3: a = o; m[i] = m[j]; break;
                case 4: a = std::move(o); m[i] = m[j]; m[j] = moved(m[j]); break;
                case 5: { V& self = a; a = self; break; }
                case 6: { *v[i] = std::make_unique<V>(o); m[i] = m[j]; break; }
                case 7: { *v[i] = std::make_unique<V>(std::move(o)); m[i] = m[j]; m[j] = moved(m[j]); break; }
                case 8: { const B b(step); a = b; m[i] = { 1, step }; break; }
                case 9: { A b(step); *v[i] = std::make_unique<V>(b); m[i] = { 0, step }; break; }
                case 10: { *v[i] = std::make_unique<V>(); m[i] = { 0, 7 }; break; }
                case 11: { // a throwing copy leaves the target untouched
                    copies_until_throw = 0;
                    bool threw = false;
                    try { a = o; } catch (int) { threw = true; }
                    copies_until_throw = -1;
                    if (threw != (m[j].index == 1)) return ctx.fail("copying throws if and only if the alternative does");
                    if (!threw) m[i] = m[j];
                    break;
                }
                case 12: { // conversion from a value whose copy throws
                    const B b(step);
                    copies_until_throw = 0;
                    bool threw = false;
                    try { a = V(b); } catch (int) { threw = true; }
                    copies_until_throw = -1;
                    if (!threw) return ctx.fail("exception of a copy is lost");
                    break;
                }
                }
                for (int k = 0; k < 2; ++k) {
                    ++ctx.compared;
                    V& w = **v[k];
                    const V& cw = w;
                    if (life_error) return ctx.fail("an object is used outside of its lifetime");
                    if (int(w.index()) != m[k].index) return ctx.fail("holds alternative " + std::to_string(w.index()) + " instead of " + std::to_string(m[k].index));
                    if (value_of(w) != m[k].value) return ctx.fail("holds " + std::to_string(value_of(w)) + " instead of " + std::to_string(m[k].value));
                    if (holds_alternative<A>(w) != (m[k].index == 0) || holds_alternative<B>(w) != (m[k].index == 1) || holds_alternative<C>(w) != (m[k].index == 2)) return ctx.fail("holds_alternative is wrong");
                    if ((bm::get_if<A>(&w) != nullptr) != (m[k].index == 0) || (bm::get_if<B>(&cw) != nullptr) != (m[k].index == 1) || (bm::get_if<2>(&w) != nullptr) != (m[k].index == 2) || (bm::get_if<0>(&cw) != nullptr) != (m[k].index == 0)) return ctx.fail("get_if is wrong");
                    bool threw = false;
                    try { (void)bm::get<B>(w); } catch (const bm::Assertion_Error&) { threw = true; }
                    if (threw != (m[k].index != 1)) return ctx.fail("get of another alternative");
                    threw = false;
                    try { (void)bm::get<0>(cw); } catch (const bm::Assertion_Error&) { threw = true; }
                    if (threw != (m[k].index != 0)) return ctx.fail("get of another alternative");
                    if (m[k].index == 1 && !(w == B(m[k].value))) return ctx.fail("comparison with an equal value");
                    if (w == A(m[k].value) ? m[k].index != 0 : m[k].index == 0) return ctx.fail("comparison with a value");
                    if (w == C { m[k].value + 1 }) return ctx.fail("comparison with a different value");
                }
                if ((*x == *y) != (m[0].index == m[1].index && m[0].value == m[1].value)) return ctx.fail("comparison of variants");
                const size_t expected = (m[0].index != 2) + (m[1].index != 2);
                if (live.size() != expected) return ctx.fail(std::to_string(live.size()) + " objects are alive instead of " + std::to_string(expected));
            }
        }
        if (!live.empty()) ctx.fail("objects outlive their variants");
        if (life_error) ctx.fail("an object is destroyed twice");
        ctx.outcome("histories");
    }
};
Register<Variants> r2;

struct Results : Suite {
    using R = bm::Result<A, Tracked<2, true>>;
    using E = Tracked<2, true>;
    using RV = bm::Result<void, E>;
    const char* name() const override { return "results"; }
    const char* bound(Tier t) const override { return t == Tier::quick ? "all histories of <=5 of 12 operations on two Results (with and without a value type) with instrumented lifetimes" : "the same with <=6 operations"; }
    void enumerate(Tier t, const Emit& emit) override
    {
        for (size_t n = 1; n <= (t == Tier::quick ? 5u : 6u); ++n)
            if (!all_sequences(letters(12), n, "", [&](std::string_view s) { return emit("v" + std::string(s)) && emit("n" + std::string(s)); })) return;
    }
    template <typename T> static int value_of(const T& r)
    {
        if constexpr (std::is_same_v<T, R>) return r ? r->value : r.error().value;
        else return r ? 0 : r.error().value;
    }
    template <typename T> void run(std::string_view c, Ctx& ctx)
    {
        constexpr bool has = std::is_same_v<T, R>;
        std::set<const void*> live;
        alive = &live;
        life_error = false;
        struct M { bool ok; int value; };
        {
            auto success = [](int s) { if constexpr (has) return T(A(s)); else return T(); };
            auto x = std::make_unique<T>(success(5)), y = std::make_unique<T>(E(6));
            std::unique_ptr<T>* v[] = { &x, &y };
            M m[2] { { true, has ? 5 : 0 }, { false, 6 } };
            int step = 10;
            for (int op : digits(c)) {
                ++ctx.transitions;
                ++step;
                const int i = op & 1, j = 1 - i;
                T &a = **v[i], &o = **v[j];
                auto moved = [](M s) { return M { s.ok, 0 }; };
                switch (op >> 1) {
                case 0: a = success(step); m[i] = { true, has ? step : 0 }; break;
                case 1: { T e { E(step) }; a = e; m[i] = { false, step }; break; }
                case 2: { a = o; m[i] = m[j]; break; }
                case 3: { // Result<void, E> copies the error where another E could be moved
                    T& r = (a = std::move(o));
                    if (&r != &a) return ctx.fail("move assignment returns another object");
                    m[i] = m[j];
                    if (has || o || o.error().value == 0) m[j] = moved(m[j]);
                    if (!o && !has && o.error().value != 0 && o.error().value != m[i].value) return ctx.fail("moved from");
                    break;
                }
                case 4: { *v[i] = std::make_unique<T>(o); m[i] = m[j]; break; }
                case 5: { *v[i] = std::make_unique<T>(std::move(o)); m[i] = m[j]; m[j] = moved(m[j]); break; }
                }
                for (int k = 0; k < 2; ++k) {
                    ++ctx.compared;
                    T& w = **v[k];
                    if (life_error) return ctx.fail("an object is used outside of its lifetime");
                    if (bool(w) != m[k].ok || w.has_value() != m[k].ok) return ctx.fail("success and error are confused");
                    if (value_of(w) != m[k].value) return ctx.fail("holds " + std::to_string(value_of(w)) + " instead of " + std::to_string(m[k].value));
                    bool threw = false;
                    try { (void)w.error(); } catch (const bm::Assertion_Error&) { threw = true; }
                    if (threw != m[k].ok) return ctx.fail("error of a success is accessible");
                    if constexpr (has) {
                        threw = false;
                        try { (void)w.value(); } catch (const bm::Assertion_Error&) { threw = true; }
                        if (threw == m[k].ok) return ctx.fail("value of an error is accessible");
                    }
                }
                const size_t expected = has ? 2 : size_t(!m[0].ok) + size_t(!m[1].ok);
                if (live.size() != expected) return ctx.fail(std::to_string(live.size()) + " objects are alive instead of " + std::to_string(expected));
            }
        }
        if (!live.empty()) ctx.fail("objects outlive their results");
        if (life_error) ctx.fail("an object is destroyed twice");
        ctx.outcome("histories");
    }
    void check(std::string_view c, Ctx& ctx) override { c[0] == 'v' ? run<R>(c.substr(1), ctx) : run<RV>(c.substr(1), ctx); }
};
Register<Results> r3;

// Every way of making a Result and of looking into it, and what its operations promise about exceptions.
struct Result_Forms : Suite {
    const char* name() const override { return "result_forms"; }
    const char* bound(Tier) const override { return "all 8 forms of construction x 11 forms of access x const, values and rvalues, with values 0..3; promises of all special members for 5 x 5 kinds of types"; }
    void enumerate(Tier, const Emit& emit) override
    {
        for (int f = 0; f < 8; ++f)
            for (int a = 0; a < 11; ++a)
                for (int v = 0; v < 4; ++v)
                    if (!emit(std::to_string(f) + " " + std::to_string(a) + " " + std::to_string(v))) return;
        emit("promises");
    }
    struct Plain { };
    template <bool Copy, bool Move> struct Throwing {
        Throwing() { }
        Throwing(const Throwing&) noexcept(!Copy) { }
        Throwing(Throwing&&) noexcept(!Move) { }
        Throwing& operator=(const Throwing&) noexcept(!Copy) { return *this; }
        Throwing& operator=(Throwing&&) noexcept(!Move) { return *this; }
    };
    struct Unique { Unique(Unique&&) noexcept { } Unique& operator=(Unique&&) noexcept { return *this; } };
    template <int N, typename T> struct Other : T { using T::T; };
    template <typename X, typename... Parts> static void promise(Ctx& ctx, const char* what)
    {
        auto need = [&](bool r, bool parts, const char* op) {
            ++ctx.compared;
            ++ctx.transitions;
            if (r && !parts) ctx.fail(std::string(what) + ": " + op + " promises more than its parts");
            ctx.outcome(r ? "promised" : "not promised");
        };
        // A type that cannot be moved in its own way may copy instead.
        need(std::is_copy_constructible_v<X>, (std::is_copy_constructible_v<Parts> && ...), "copying");
        need(std::is_move_constructible_v<X>, (std::is_move_constructible_v<Parts> && ...), "moving");
        need(std::is_copy_assignable_v<X>, (std::is_copy_assignable_v<Parts> && ...), "copy assignment");
        need(std::is_move_assignable_v<X>, (std::is_move_assignable_v<Parts> && ...), "move assignment");
        need(std::is_nothrow_copy_constructible_v<X>, (std::is_nothrow_copy_constructible_v<Parts> && ...), "noexcept copying");
        need(std::is_nothrow_move_constructible_v<X>, (std::is_nothrow_move_constructible_v<Parts> && ...) || (std::is_nothrow_copy_constructible_v<Parts> && ...), "noexcept moving");
        need(std::is_nothrow_copy_assignable_v<X>, (std::is_nothrow_copy_assignable_v<Parts> && ...), "noexcept copy assignment");
        need(std::is_nothrow_move_assignable_v<X>, (std::is_nothrow_move_assignable_v<Parts> && ...) || (std::is_nothrow_copy_assignable_v<Parts> && ...), "noexcept move assignment");
        (need(std::is_nothrow_constructible_v<X, const Parts&>, std::is_nothrow_copy_constructible_v<Parts>, "noexcept construction from a copy"), ...);
        (need(std::is_nothrow_constructible_v<X, Parts&&>, std::is_nothrow_move_constructible_v<Parts>, "noexcept construction by moving"), ...);
    }
    template <typename T> static void promises(Ctx& ctx)
    {
        auto with = [&]<typename E>(std::type_identity<E>) {
            promise<bm::Result<T, Other<1, E>>, T, Other<1, E>>(ctx, "Result");
            promise<bm::Variant<T, Other<1, E>>, T, Other<1, E>>(ctx, "Variant");
        };
        with(std::type_identity<Plain> {});
        with(std::type_identity<Throwing<true, false>> {});
        with(std::type_identity<Throwing<false, true>> {});
        with(std::type_identity<Throwing<true, true>> {});
        with(std::type_identity<Unique> {});
        promise<bm::Result<void, T>, T>(ctx, "Result of nothing");
    }
    void check(std::string_view c, Ctx& ctx) override
    {
        if (c == "promises") {
            promises<Plain>(ctx);
            promises<Throwing<true, false>>(ctx);
            promises<Throwing<false, true>>(ctx);
            promises<Throwing<true, true>>(ctx);
            promises<Unique>(ctx);
            return;
        }
        std::set<const void*> live;
        alive = &live;
        life_error = false;
        {
            using E = Tracked<2, true>;
            using R = bm::Result<A, E>;
            std::istringstream words { std::string(c) };
            int form, access, v;
            words >> form >> access >> v;
            auto a = std::make_unique<A>(v);
            auto e = std::make_unique<E>(v);
            auto make = [&]() -> R {
                switch (form) {
                case 0: return R(bm::Success_Tag {}, std::as_const(*a));
                case 1: return R(bm::Success_Tag {}, std::move(*a));
                case 2: return R(bm::Error_Tag {}, std::as_const(*e));
                case 3: return R(bm::Error_Tag {}, std::move(*e));
                case 4: return R(std::as_const(*a));
                case 5: return R(std::move(*a));
                case 6: return R(std::as_const(*e));
                default: return R(std::move(*e));
                }
            };
            const bool ok = !(form & 2);
            auto r = std::make_unique<R>(make());
            const R& k = *r;
            ++ctx.transitions;
            ++ctx.compared;
            const int left = ok ? a->value : e->value;
            if (left != (form & 1 ? 0 : v)) ctx.fail("what it was made of is now " + std::to_string(left));
            if (bool(k) != ok || k.has_value() != ok) ctx.fail("success and error are confused");
            std::string got;
            const bool wants_value = access < 7;
            try {
                switch (access) {
                case 0: got = std::to_string((*r)->value); break;
                case 1: got = std::to_string(k->value); break;
                case 2: got = std::to_string((**r).value); break;
                case 3: got = std::to_string((*k).value); break;
                case 4: { A x(*std::move(*r)); got = std::to_string(x.value) + (r->value().value ? " left" : ""); break; }
                case 5: { A x(std::move(*r).value()); got = std::to_string(x.value) + (r->value().value ? " left" : ""); break; }
                case 6: { A x(std::move(k).value()); got = std::to_string(x.value) + (k.value().value != v ? " taken" : ""); if (&k.value() != &r->value() || &*k != &r->value()) got += " elsewhere"; break; }
                case 7: got = std::to_string(r->error().value); break;
                case 8: got = std::to_string(k.error().value); break;
                case 9: { E x(std::move(*r).error()); got = std::to_string(x.value) + (r->error().value ? " left" : ""); break; }
                default: { E x(std::move(k).error()); got = std::to_string(x.value) + (k.error().value != v ? " taken" : "") + (&k.error() != &r->error() ? " elsewhere" : ""); break; }
                }
            } catch (const bm::Assertion_Error&) { got = "refused"; }
            const std::string want = wants_value == ok ? std::to_string(v) : "refused";
            if (got != want) ctx.fail("access gives " + got + " instead of " + want);
            ctx.outcome(want == "refused" ? "refused" : "accessed");
            // A result assigned to itself stays as it is.
            const int now = ok ? r->value().value : r->error().value;
            *r = k;
            if (bool(k) != ok || (ok ? k.value().value : k.error().value) != now) ctx.fail("changed by being assigned to itself");
            if (life_error || live.size() != 3) ctx.fail("objects are not alive, or too many are");
        }
        if (!live.empty() || life_error) ctx.fail("objects outlive their results");
    }
};
Register<Result_Forms> r3b;

// ---- C26: helpers --------------------------------------------------------------------------

struct Tribools : Suite {
    const char* name() const override { return "tribools"; }
    const char* bound(Tier) const override { return "all triples of truth values"; }
    void enumerate(Tier, const Emit& emit) override { all_sequences({ "f", "m", "t" }, 3, "", emit); }
    void check(std::string_view c, Ctx& ctx) override
    {
        using T = bm::Tribool;
        auto real = [](char k) { return k == 't' ? T::twue : k == 'f' ? T::fawse : T::maybe; };
        auto show = [](T t) { return t == T::twue ? 't' : t == T::fawse ? 'f' : t == T::maybe ? 'm' : '?'; };
        // maybe is "either": a connective is known iff all completions agree
        auto lift = [](char x, char y, auto f) {
            int seen = 0;
            for (bool p : { false, true }) for (bool q : { false, true })
                if ((x == 'm' || p == (x == 't')) && (y == 'm' || q == (y == 't'))) seen |= f(p, q) ? 2 : 1;
            return seen == 1 ? 'f' : seen == 2 ? 't' : 'm';
        };
        const char x = c[0], y = c[1], z = c[2];
        const T a = real(x), b = real(y), d = real(z);
        ctx.transitions += 6;
        ctx.compared += 8;
        ctx.outcome("triples");
        if (show(!a) != lift(x, 't', [](bool p, bool) { return !p; })) ctx.fail("!");
        if (show(a && b) != lift(x, y, [](bool p, bool q) { return p && q; })) ctx.fail("&&");
        if (show(a || b) != lift(x, y, [](bool p, bool q) { return p || q; })) ctx.fail("||");
        if (show(equals(a, b)) != lift(x, y, [](bool p, bool q) { return p == q; })) ctx.fail("equals");
        if (show(not_equals(a, b)) != lift(x, y, [](bool p, bool q) { return p != q; })) ctx.fail("not_equals");
        if ((a == b) != (x == y)) ctx.fail("==");
        if (!(((a && b) && d) == (a && (b && d))) || !(!(a && b) == (!a || !b)) || !((a && (b || d)) == ((a && b) || (a && d)))) ctx.fail("laws");
        if (!(T(true) == T::twue) || !(T(false) == T::fawse)) ctx.fail("conversion from bool");
    }
};
Register<Tribools> r4;

struct Matchers : Suite {
    const char* name() const override { return "matchers"; }
    const char* bound(Tier t) const override
    {
        return t == Tier::quick ? "all strings of <=5 of 15 characters; all strings of <=2 bytes" : "all strings of <=6 of 15 characters; all strings of <=2 bytes";
    }
    void enumerate(Tier t, const Emit& emit) override
    {
        if (!emit("")) return;
        for (int a = 0; a < 256; ++a) {
            if (!emit(std::string(1, char(a)))) return;
            for (int d = 0; d < 256; ++d) if (!emit(std::string { char(a), char(d) })) return;
        }
        Strings l;
        for (char c : std::string_view("0178xbaFg_-/*\"\\")) l.push_back({ c });
        l.push_back("\n");
        l.push_back(" ");
        for (size_t n = 3; n <= (t == Tier::quick ? 5u : 6u); ++n) if (!all_sequences(l, n, "", emit)) return;
    }
    void check(std::string_view c, Ctx& ctx) override
    {
        std::unique_ptr<char[]> exact(new char[c.size()]);
        std::memcpy(exact.get(), c.data(), c.size());
        const std::string_view s(exact.get(), c.size());
        ctx.transitions += 10;
        ctx.compared += 10;
        auto text = [&](std::string_view what, std::optional<bm::Text_Match> got, bool matches, size_t length, bool terminated) {
            if (bool(got) != matches) ctx.fail(std::string(what) + (matches ? " does not match" : " matches"));
            else if (got && (got->length != length || got->is_terminated != terminated)) ctx.fail(std::string(what) + " has length " + std::to_string(got->length) + (got->is_terminated ? "" : ", unterminated"));
        };
        auto find = [&](auto&& pred, size_t from) { size_t i = from; while (i < s.size() && !pred(i)) ++i; return i; };
        { // line comment: up to the line feed
            const size_t e = find([&](size_t i) { return s[i] == '\n'; }, 0);
            text("line comment", bm::match_line_comment(s), s.size() >= 2 && s[0] == '/' && s[1] == '/', e, e < s.size());
        }
        {
            const size_t e = find([&](size_t i) { return s[i] == '*' && i + 1 < s.size() && s[i + 1] == '/'; }, 2);
            text("block comment", bm::match_block_comment(s), s.size() >= 2 && s[0] == '/' && s[1] == '*', e < s.size() ? e + 2 : s.size(), e < s.size());
        }
        {
            size_t i = 1;
            while (i < s.size() && s[i] != '"') i += s[i] == '\\' ? 2 : 1;
            text("string literal", bm::match_string_literal(s), !s.empty() && s[0] == '"', i < s.size() ? i + 1 : s.size(), i < s.size());
        }
        for (int base : { 2, 3, 8, 10, 16 }) {
            const size_t e = find([&](size_t i) { return !ref::digit_of(s[i], base); }, 0);
            if (bm::match_digits(s, base) != e) ctx.fail("match_digits of base " + std::to_string(base));
        }
        const auto space = [](char x) { return x == ' ' || x == '\t' || x == '\r' || x == '\n'; };
        if (bm::match_whitespace(s) != find([&](size_t i) { return !space(s[i]); }, 0)) ctx.fail("match_whitespace");
        for (char x : s) if (bm::is_space(x) != space(x) || bm::is_decimal_digit(x) != (x >= '0' && x <= '9')) ctx.fail("is_space or is_decimal_digit");
        const size_t id = s.empty() || !ref::ident_start(s[0]) ? 0 : find([&](size_t i) { return !ref::ident_char(s[i]); }, 0);
        if (bm::match_identifier(s) != id) ctx.fail("match_identifier is " + std::to_string(bm::match_identifier(s)));
        if (bm::is_identifier(s) != (id == s.size() && id)) ctx.fail("is_identifier");
        const bool html = !s.empty() && (ref::ident_start(s[0]) || s[0] == '-') && find([&](size_t i) { return !ref::ident_char(s[i]) && s[i] != '-'; }, 0) == s.size();
        if (bm::is_html_identifier(s) != html) ctx.fail("is_html_identifier");
        { // literals
            auto r = bm::match_integer_literal(s);
            using enum bm::Literal_Match_Status;
            auto want = ok;
            size_t len = 0;
            auto type = bm::Literal_Type {};
            if (s.empty() || s[0] < '0' || s[0] > '9') want = no_digits;
            else if (s.starts_with("0b") || s.starts_with("0x")) {
                const int base = s[1] == 'b' ? 2 : 16;
                len = find([&](size_t i) { return !ref::digit_of(s[i], base); }, 2);
                type = base == 2 ? bm::Literal_Type::binary : bm::Literal_Type::hexadecimal;
                if (len == 2) want = no_digits_following_prefix;
            }
            else {
                const int base = s[0] == '0' ? 8 : 10;
                len = find([&](size_t i) { return !ref::digit_of(s[i], base); }, 0);
                type = base == 8 && len > 1 ? bm::Literal_Type::octal : bm::Literal_Type::decimal;
            }
            if (r.status != want || r.length != len || r.type != type || bool(r) != (want == ok)) ctx.fail("match_integer_literal: length " + std::to_string(r.length));
        }
        ctx.outcome("strings");
    }
};
Register<Matchers> r5;

struct Numbers : Suite {
    const char* name() const override { return "numbers"; }
    const char* bound(Tier) const override { return "to_string of every 2^k, 10^k, their multiples by 1..9, their neighbours and negations, all of -1000..1000; parsing them back"; }
    void enumerate(Tier, const Emit& emit) override
    {
        for (int i = 0; i <= 1000; ++i) if (!emit(std::to_string(i))) return;
        auto put = [&](unsigned __int128 v) {
            std::string r;
            unsigned __int128 x = v;
            do { r.insert(r.begin(), char('0' + int(x % 10))); x /= 10; } while (x);
            return emit(r);
        };
        for (int k = 0; k < 128; ++k)
            for (int f = 1; f < 10; ++f)
                for (int d = -1; d <= 1; ++d) if (!put(((unsigned __int128)1 << k) * unsigned(f) + unsigned(d))) return;
        unsigned __int128 p = 1;
        for (int k = 0; k < 39; ++k, p *= 10)
            for (int f = 1; f < 10; ++f)
                for (int d = -1; d <= 1; ++d) if (!put(p * unsigned(f) + unsigned(d))) return;
    }
    void check(std::string_view c, Ctx& ctx) override
    {
        unsigned __int128 v = 0;
        for (char x : c) v = v * 10 + unsigned(x - '0');
        ctx.transitions++;
        ctx.compared += 4;
        ctx.outcome("numbers");
        if (bm::to_string(bm::Uint128(v)) != c) ctx.fail("to_string gives " + bm::to_string(bm::Uint128(v)));
        const bool small = !(v >> 127);
        if (small && bm::to_string(bm::Int128(v)) != c) ctx.fail("signed to_string gives " + bm::to_string(bm::Int128(v)));
        if (small && v && bm::to_string(-bm::Int128(v)) != "-" + std::string(c)) ctx.fail("negative to_string gives " + bm::to_string(-bm::Int128(v)));
        auto u = bm::parse_uinteger_literal(c);
        if (!u || *u != v) ctx.fail("parse_uinteger_literal");
    }
};
Register<Numbers> r6;

struct Files : Suite {
    const char* name() const override { return "files"; }
    const char* bound(Tier) const override { return "files of every length 0..40 and within 3 of each multiple of 1024 up to 16384 in 3 fillings (text, all bytes, line ends); missing files, directories, names that are not null-terminated"; }
    void enumerate(Tier, const Emit& emit) override
    {
        std::set<int> sizes;
        for (int i = 0; i <= 40; ++i) sizes.insert(i);
        for (int k = 1024; k <= 16384; k += 1024) for (int d = -3; d <= 3; ++d) sizes.insert(k + d);
        for (int s : sizes) for (char f : { 't', 'b', 'l' }) if (!emit(f + std::to_string(s))) return;
        emit("missing") && emit("directory") && emit("view");
    }
    void check(std::string_view c, Ctx& ctx) override
    {
        namespace fs = std::filesystem;
        char dir[] = "/tmp/verif-files-XXXXXX";
        if (!mkdtemp(dir)) std::abort();
        struct Remove { std::string p; ~Remove() { fs::remove_all(p); } } remove { dir };
        const std::string path = std::string(dir) + "/f";
        ctx.transitions++;
        ctx.compared++;
        std::string text = "some text\n";
        if (c == "directory") fs::create_directory(path);
        else if (c != "missing") {
            if (c != "view") {
                text.clear();
                for (size_t i = 0, n = std::stoul(std::string(c.substr(1))); i < n; ++i) text += c[0] == 't' ? char('a' + i % 26) : c[0] == 'b' ? char(i * 7 + i / 256) : "\r\n\n\r"[i % 4];
            }
            std::ofstream(path, std::ios::binary) << text;
        }
        std::pmr::unsynchronized_pool_resource memory;
        const std::string longer = path + "suffix";
        auto r = bm::file_to_string(c == "view" ? std::string_view(longer).substr(0, path.size()) : std::string_view(path), &memory);
        if (c == "missing" || c == "directory") {
            ctx.outcome("errors");
            if (r) return ctx.fail("no error");
            if (r.error() != (c == "missing" ? bm::IO_Error_Code::cannot_open : bm::IO_Error_Code::read_error)) return ctx.fail("another error");
            std::ostringstream out;
            bm::print_io_error(out, path, r.error(), false);
            if (out.str().find(path) == out.str().npos || out.str().back() != '\n') return ctx.fail("error is printed as " + out.str());
            return;
        }
        ctx.outcome("contents");
        if (!r) return ctx.fail("the file cannot be read");
        if (std::string_view(*r) != text) return ctx.fail("the contents differ: " + std::to_string(r->size()) + " bytes instead of " + std::to_string(text.size()));
    }
};
Register<Files> r7;
}
