// C14: the virtual machine executes instructions as documented, deterministically, and a reset
// leaves nothing behind.
#include "bms_suite.hpp"
#include "refbms.hpp"
#include "bms/evaluation/builtin_function.hpp"
using namespace verif;
namespace {
namespace b = bm::bms;
using namespace ref;

using Op = b::Expression_Type;

// ---- reference machine -----------------------------------------------------------------------

struct RIns {
    enum K { load, store, undef, push, pop, jump, jump_if, ret, conv, un, bin, call, builtin, brk, cont } k;
    long n = 0; // variable, offset, address
    bool expected = false;
    Val v {};
    std::string op;
    Op eop {};
    Ty ty {};
};

b::Concrete_Type real(Ty t)
{
    switch (t.k) {
    case K::Void: return b::Concrete_Type::Void;
    case K::Bool: return b::Concrete_Type::Bool;
    case K::Int: return b::Concrete_Type::Int;
    default: return b::Concrete_Type::Uint(t.w);
    }
}
b::Concrete_Value real(Val v) { return { real(v.t), Big_Int(v.v) }; }
std::string show(Val v) { return str(real(v)); }

char vars[1100];

b::Instruction real(const RIns& i, size_t index)
{
    namespace ins = b::ins;
    bm::Source_Position p { { 0, 0, 0 }, "" };
    p.begin = index;
    b::Debug_Info d { b::Construct::program, p };
    switch (i.k) {
    case RIns::load: return ins::Load { { d }, &vars[i.n] };
    case RIns::store: return ins::Store { { d }, &vars[i.n] };
    case RIns::undef: return ins::Undefine { { d }, &vars[i.n] };
    case RIns::push: return ins::Push { { d }, real(i.v) };
    case RIns::pop: return ins::Pop { { d } };
    case RIns::jump: return ins::Relative_Jump { { d }, i.n };
    case RIns::jump_if: return ins::Relative_Jump_If { { d }, i.n, i.expected };
    case RIns::ret: return ins::Return { { d } };
    case RIns::conv: return ins::Convert { { d }, real(i.ty) };
    case RIns::un: return ins::Unary_Operate { { d }, i.eop };
    case RIns::bin: return ins::Binary_Operate { { d }, i.eop };
    case RIns::call: return ins::Call { { d }, size_t(i.n) };
    case RIns::builtin: return ins::Builtin_Call { { d }, b::Builtin_Function::assert };
    case RIns::brk: return ins::Break { { d } };
    case RIns::cont: return ins::Continue { { d } };
    }
    std::abort();
}

struct RVM {
    std::vector<RIns> code;
    std::vector<Val> stack;
    struct Frame { std::map<long, Val> vars; size_t back; };
    std::vector<Frame> frames { { {}, 0 } };
    size_t pc = 0;
    struct Cmp { Val l, r; std::string op; };
    std::optional<Cmp> cmp; // comparison whose result is on top of the stack for the next assert

    void reset() { stack.clear(); frames = { { {}, 0 } }; pc = 0; cmp.reset(); }

    std::string cycle() // "" or the error with everything attached to it
    {
        if (pc >= code.size()) return "end of program";
        const size_t at = pc;
        const RIns& i = code[pc];
        auto e = [&](std::string s) { return s + " at " + std::to_string(at); };
        auto need = [&](size_t n) { return stack.size() >= n; };
        auto take = [&] { Val v = stack.back(); stack.pop_back(); return v; };
        auto& f = frames.back();
        const auto used = cmp;
        if (i.k == RIns::builtin) cmp.reset();
        try {
            switch (i.k) {
            case RIns::load:
                if (!f.vars.count(i.n)) return e("load_uninitialized");
                stack.push_back(f.vars[i.n]);
                ++pc;
                break;
            case RIns::store:
                if (!need(1)) return e("pop");
                f.vars[i.n] = take();
                ++pc;
                break;
            case RIns::undef: f.vars.erase(i.n); ++pc; break;
            case RIns::push: stack.push_back(i.v); ++pc; break;
            case RIns::pop:
                if (!need(1)) return e("pop");
                take();
                ++pc;
                break;
            case RIns::jump: {
                const long t = long(pc) + 1 + i.n;
                if (t < 0 || t >= long(code.size())) return e("jump_out_of_program");
                pc = size_t(t);
                break;
            }
            case RIns::jump_if: {
                if (!need(1)) return e("pop");
                Val c = take();
                if (c.t.k != K::Bool) return e("jump_if_not_bool");
                if ((c.v != 0) != i.expected) { ++pc; break; }
                const long t = long(pc) + 1 + i.n;
                if (t < 0 || t >= long(code.size())) return e("jump_out_of_program");
                pc = size_t(t);
                break;
            }
            case RIns::ret: {
                if (frames.size() == 1) return e("pop_call");
                pc = frames.back().back;
                frames.pop_back();
                break;
            }
            case RIns::conv: {
                if (!need(1)) return e("pop");
                Val v = take();
                if (!convertible(v.t, i.ty)) return e("type_error");
                stack.push_back(convert(v, i.ty));
                ++pc;
                break;
            }
            case RIns::un: {
                if (!need(1)) return e("pop");
                Val v = take();
                unary_type(i.op, v.t);
                stack.push_back(unary(i.op, v));
                ++pc;
                break;
            }
            case RIns::bin: {
                if (!need(2)) return e("pop");
                Val r = take(), l = take();
                binary_type(l.t, i.op, r.t);
                Val x = binary(l, i.op, r);
                if (pc + 1 < code.size() && code[pc + 1].k == RIns::builtin) cmp = Cmp { l, r, i.op };
                stack.push_back(x);
                ++pc;
                break;
            }
            case RIns::call:
                if (i.n < 0 || i.n >= long(code.size())) return e("call_out_of_program");
                frames.push_back({ {}, pc + 1 });
                pc = size_t(i.n);
                break;
            case RIns::builtin: {
                if (!need(1)) return e("pop");
                Val c = stack.back();
                if (c.t.k != K::Bool) return e("type_error");
                if (!c.v) return e("assertion_fail") + (used ? " comparing " + show(used->l) + used->op + show(used->r) : "");
                stack.back() = Val { { K::Void }, 0 };
                ++pc;
                break;
            }
            case RIns::brk: case RIns::cont: return e("symbolic_jump");
            }
        } catch (Err&) { return e("type_error"); }
        catch (Eval_Error& x) { return e(x.code); }
        if (pc == at) return e("infinite_loop");
        return "";
    }
};

std::string real_error(const b::Execution_Error& e)
{
    std::string s { e.code == b::Execution_Error_Code::evaluation ? evaluation_error_code_name(e.evaluation_error) : execution_error_code_name(e.code) };
    s += " at " + (e.debug_info.pos ? std::to_string(e.debug_info.pos->begin) : std::string("?"));
    if (e.comparison_failure && s.starts_with("assertion_fail")) {
        auto& c = *e.comparison_failure;
        s += " comparing " + str(c.left) + std::string(b::token_type_code_name(b::expression_type_token(c.op))) + str(c.right);
    }
    return s;
}
std::string real_cycle(b::Virtual_Machine& vm)
{
    try {
        auto r = vm.cycle();
        return r ? "" : real_error(r.error());
    } catch (std::out_of_range&) { return "end of program"; }
}

const std::vector<std::pair<std::string, RIns>>& alphabet()
{
    static const auto a = [] {
        const Val t { { K::Bool }, 1 }, f { { K::Bool }, 0 }, one { { K::Int }, 1 }, two { { K::Int }, 2 }, u { { K::Uint, 8 }, 200 }, w { { K::Uint, 4 }, 1 }, vo { { K::Void }, 0 }, neg { { K::Int }, ~U128(0) };
        std::vector<std::pair<std::string, RIns>> r;
        auto add = [&](std::string n, RIns i) { r.push_back({ n, i }); };
        add("load0", { RIns::load, 0 }); add("load1", { RIns::load, 1 });
        add("store0", { RIns::store, 0 }); add("store1", { RIns::store, 1 });
        add("undef0", { RIns::undef, 0 });
        for (auto& [n, v] : std::vector<std::pair<std::string, Val>> { { "true", t }, { "false", f }, { "1", one }, { "2", two }, { "-1", neg }, { "200u8", u }, { "1u4", w }, { "void", vo } })
            add("push" + n, { RIns::push, 0, false, v });
        add("pop", { RIns::pop });
        for (long o : { -3, -2, -1, 0, 1, 2 }) add("jump" + std::to_string(o), { RIns::jump, o });
        for (long o : { -3, -1, 0, 1, 3 }) add("jumpt" + std::to_string(o), { RIns::jump_if, o, true });
        for (long o : { -2, 1 }) add("jumpf" + std::to_string(o), { RIns::jump_if, o, false });
        add("ret", { RIns::ret });
        add("conv8", { RIns::conv, 0, false, {}, "", {}, { K::Uint, 8 } });
        add("convB", { RIns::conv, 0, false, {}, "", {}, { K::Bool } });
        add("convI", { RIns::conv, 0, false, {}, "", {}, { K::Int } });
        add("un-", { RIns::un, 0, false, {}, "-", Op::unary_minus });
        add("un!", { RIns::un, 0, false, {}, "!", Op::logical_not });
        add("bin+", { RIns::bin, 0, false, {}, "+", Op::binary_plus });
        add("bin-", { RIns::bin, 0, false, {}, "-", Op::binary_minus });
        add("bin==", { RIns::bin, 0, false, {}, "==", Op::equals });
        add("bin<", { RIns::bin, 0, false, {}, "<", Op::less_than });
        add("bin/", { RIns::bin, 0, false, {}, "/", Op::division });
        for (long o : { 0, 1, 2, 3, 4, 5 }) add("call" + std::to_string(o), { RIns::call, o });
        add("assert", { RIns::builtin });
        add("break", { RIns::brk });
        return r;
    }();
    return a;
}
const RIns& find(std::string_view n)
{
    static const auto m = [] { std::map<std::string, RIns, std::less<>> m; for (auto& [k, v] : alphabet()) m.emplace(k, v); return m; }();
    auto i = m.find(n);
    if (i == m.end()) std::abort();
    return i->second;
}
Strings names()
{
    Strings r;
    for (auto& [k, v] : alphabet()) r.push_back(k);
    return r;
}
Strings split(std::string_view s, char d = ' ')
{
    Strings r;
    std::string cur;
    for (char c : s) { if (c == d) { if (!cur.empty()) r.push_back(cur); cur.clear(); } else cur += c; }
    if (!cur.empty()) r.push_back(cur);
    return r;
}

struct Instructions : Suite {
    const char* name() const override { return "vm_instructions"; }
    const char* bound(Tier t) const override
    {
        return t == Tier::quick ? "all programs of <=3 of 44 instructions and <=5 of 17, each from an empty stack and from (5, false, true), in lockstep with the reference machine for <=24 cycles, twice with a reset between"
                                : "all programs of <=4 of 44 instructions and <=6 of 17";
    }
    void enumerate(Tier t, const Emit& emit) override
    {
        const bool q = t == Tier::quick;
        const Strings all = names();
        for (size_t n = 1; n <= (q ? 3u : 4u); ++n)
            if (!all_sequences(all, n, " ", emit)) return;
        const Strings few { "load0", "store0", "undef0", "pushtrue", "pushfalse", "push1", "push2", "jump-3", "jump1", "jumpt-3", "jumpt1", "jumpf-2", "ret", "bin==", "bin-", "call3", "assert" };
        for (size_t n = q ? 4 : 5; n <= (q ? 5u : 6u); ++n)
            if (!all_sequences(few, n, " ", emit)) return;
    }
    void check(std::string_view c, Ctx& ctx) override
    {
        std::vector<RIns> code;
        std::vector<b::Instruction> real_code;
        for (auto& s : split(c)) {
            code.push_back(find(s));
            real_code.push_back(real(code.back(), real_code.size()));
        }
        static thread_local b::Virtual_Machine vm { std::pmr::new_delete_resource() };
        vm.clear();
        if (vm.add_instructions(real_code) != 0 || vm.instruction_count() != code.size()) return ctx.fail("clear() leaves instructions behind");
        RVM ref;
        ref.code = code;
        const std::vector<Val> initial { { { K::Int }, 5 }, { { K::Bool }, 0 }, { { K::Bool }, 1 } };
        for (int round = 0; round < 4; ++round) {
            vm.reset();
            ref.reset();
            if (round & 1)
                for (auto& v : initial) { ref.stack.push_back(v); vm.push(real(v)); }
            for (int k = 0; k < 24; ++k) {
                const std::string e = ref.cycle(), g = real_cycle(vm);
                ++ctx.transitions;
                if (e != g) return ctx.fail("round " + std::to_string(round) + " cycle " + std::to_string(k) + ": expected '" + e + "', got '" + g + "'");
                if (e.empty() && ref.stack.size() != vm.stack_size()) return ctx.fail("round " + std::to_string(round) + " cycle " + std::to_string(k) + ": wrong stack size");
                if (!e.empty()) { ctx.outcome(e.substr(0, e.find(" at "))); break; }
            }
            ++ctx.compared;
            // an error leaves the operands of the failing instruction unspecified; values below are compared
            const size_t m = std::min(ref.stack.size(), vm.stack_size());
            while (vm.stack_size() > m) vm.pop();
            while (ref.stack.size() > m) ref.stack.pop_back();
            while (!ref.stack.empty()) {
                const std::string e = show(ref.stack.back()), g = str(vm.pop());
                ref.stack.pop_back();
                if (e != g) return ctx.fail("round " + std::to_string(round) + ": expected stack value " + e + ", got " + g);
            }
        }
    }
};
Register<Instructions> r0;

// Histories of host operations on one machine.
struct Histories : Suite {
    const char* name() const override { return "vm_histories"; }
    const char* bound(Tier t) const override
    {
        return t == Tier::quick ? "all histories of <=6 host operations from 13 (jump_to, push, cycle, run to the end, pop, reset, clear, add_instructions of four routines) on one machine, in lockstep with the reference machine"
                                : "all histories of <=7 host operations from 13";
    }
    void enumerate(Tier t, const Emit& emit) override
    {
        const Strings ops { "add:A", "add:B", "add:C", "add:D", "jump0", "jump4", "push7", "pushT", "cycle", "run", "pop", "reset", "clear" };
        for (size_t n = 1; n <= (t == Tier::quick ? 6u : 7u); ++n)
            if (!all_sequences(ops, n, " ", emit)) return;
    }
    void check(std::string_view c, Ctx& ctx) override
    {
        static const std::map<std::string, std::string, std::less<>> routines {
            { "A", "push1 store0 load0 ret" }, // leaves a variable behind in the outermost frame
            { "B", "load0 push1 bin== assert ret" }, // reads it
            { "C", "store1 load1 push2 bin- call0 ret" },
            { "D", "pushtrue push1 push2 bin== assert" },
        };
        b::Virtual_Machine vm { std::pmr::new_delete_resource() };
        RVM ref;
        std::string log;
        size_t k = 0;
        for (auto& op : split(c)) {
            ++k;
            ++ctx.transitions;
            auto fail = [&](const std::string& m) { ctx.fail("operation " + std::to_string(k) + " (" + op + "): " + m); };
            if (op.starts_with("add:")) {
                std::vector<b::Instruction> code;
                const size_t base = ref.code.size();
                for (auto& s : split(routines.at(op.substr(4)))) {
                    code.push_back(real(find(s), ref.code.size()));
                    ref.code.push_back(find(s));
                }
                if (vm.add_instructions(code) != base) return fail("wrong address");
            }
            else if (op.starts_with("jump")) {
                const size_t a = size_t(op[4] - '0');
                if (a >= ref.code.size()) continue;
                ref.pc = a;
                vm.jump_to(a);
            }
            else if (op.starts_with("push")) {
                Val v = op == "push7" ? Val { { K::Int }, 7 } : Val { { K::Bool }, 1 };
                ref.stack.push_back(v);
                vm.push(real(v));
            }
            else if (op == "cycle" || op == "run") {
                for (int n = 0; n < (op == "run" ? 40 : 1); ++n) {
                    const std::string e = ref.cycle(), g = real_cycle(vm);
                    ++ctx.compared;
                    if (e != g) return fail("expected '" + e + "', got '" + g + "'");
                    if (!e.empty()) {
                        ctx.outcome(e.substr(0, e.find(" at ")));
                        // operands of a failing instruction are unspecified: only a reset continues
                        if (!e.starts_with("pop_call") && !e.starts_with("end of")) { vm.reset(); ref.reset(); }
                        break;
                    }
                }
            }
            else if (op == "pop") {
                if (ref.stack.empty()) continue;
                const std::string e = show(ref.stack.back()), g = str(vm.pop());
                ref.stack.pop_back();
                if (e != g) return fail("expected value " + e + ", got " + g);
            }
            else if (op == "reset") { vm.reset(); ref.reset(); }
            else { vm.clear(); ref.reset(); ref.code.clear(); }
            if (vm.stack_size() != ref.stack.size()) return fail("stack has " + std::to_string(vm.stack_size()) + " values instead of " + std::to_string(ref.stack.size()));
            if (vm.instruction_count() != ref.code.size()) return fail("wrong number of instructions");
        }
    }
};
Register<Histories> r1;

// Programs, stacks and histories of every size.
struct Sizes : Suite {
    const char* name() const override { return "vm_sizes"; }
    unsigned hang_seconds() const override { return 60; }
    const char* bound(Tier) const override { return "11 programs with n instructions, operands, variables, frames, calls or jumps across n instructions, run twice with a reset between, for every n in 0..40, 63..65, 99..101, 127..129, 255..257, 511..513, 1023..1025 and, where the work is linear, 4095..4097, 32767..32769, 65535..65537"; }
    void enumerate(Tier, const Emit& emit) override
    {
        std::vector<int> ns;
        for (int i = 0; i <= 40; ++i) ns.push_back(i);
        for (int k : { 64, 100, 128, 256, 512, 1024, 4096, 32768, 65536 }) for (int d : { -1, 0, 1 }) ns.push_back(k + d);
        for (int n : ns)
            for (int t = 0; t < 11; ++t)
                if ((n <= 1025 || (t != 6 && t != 9)) && !emit(std::to_string(t) + " " + std::to_string(n))) return;
    }
    void check(std::string_view c, Ctx& ctx) override
    {
        const auto words = split(c);
        const int t = std::stoi(words[0]), n = std::stoi(words[1]);
        const long N = n;
        const auto integer = [](long i) { return Val { { K::Int }, i < 0 ? ~U128(0) - U128(-i - 1) : U128(i) }; };
        const Val yes { { K::Bool }, 1 }, no { { K::Bool }, 0 };
        std::vector<RIns> code;
        auto push = [&](Val v) { code.push_back({ RIns::push, 0, false, v }); };
        auto jump = [&](long o) { code.push_back({ RIns::jump, o }); };
        auto pad = [&](RIns i) { for (int k = 0; k < n; ++k) code.push_back(i); };
        const RIns ret { RIns::ret }, pop { RIns::pop }, brk { RIns::brk };
        const RIns minus { RIns::bin, 0, false, {}, "-", Op::binary_minus }, plus { RIns::bin, 0, false, {}, "+", Op::binary_plus };
        switch (t) {
        case 0: // operands, taken back in reverse
            for (int k = 0; k < n; ++k) push(integer(k * 7 - 3));
            pad(plus);
            break;
        case 1: jump(N); pad(brk); push(integer(1)); break; // over n instructions
        case 2: // over n instructions and back
            jump(N + 1); push(integer(2)); pad(brk);
            code[1].v = integer(5);
            push(integer(3)); jump(-N - 3); break;
        case 3: push(yes); code.push_back({ RIns::jump_if, N, true }); pad(brk); push(integer(1)); push(no); code.push_back({ RIns::jump_if, -N - 3, false }); break;
        case 4: // a function behind n instructions that returns behind n instructions
            pad({ RIns::undef, 0 });
            code.push_back({ RIns::call, N + 2 });
            code.push_back(ret);
            push(integer(9));
            code.push_back({ RIns::store, 1 });
            code.push_back(ret);
            break;
        case 5: // the jumps and calls out of the program, and exactly to its end
            pad({ RIns::undef, 0 });
            code.push_back(N % 2 ? RIns { RIns::jump, N % 3 - 1 } : RIns { RIns::call, N + N % 3 });
            break;
        case 6: // variables of one frame
            for (int k = 0; k < n; ++k) { push(integer(k)); code.push_back({ RIns::store, k }); }
            for (int k = 0; k < n; k += 2) code.push_back({ RIns::undef, k });
            for (int k = n - 1; k >= 0; --k) if (k % 2) code.push_back({ RIns::load, k });
            code.push_back({ RIns::load, 0 });
            break;
        case 7: case 8: // n calls of one another; each keeps a variable of its own
            push(integer(N)); // 0
            code.push_back({ RIns::call, 3 }); // 1
            code.push_back({ RIns::load, 0 }); // 2: the outermost frame has no variables
            code.push_back({ RIns::store, 0 }); // 3
            code.push_back({ RIns::load, 0 }); // 4
            push(integer(t == 7 ? 0 : -1)); // 5
            code.push_back({ RIns::bin, 0, false, {}, "==", Op::equals }); // 6
            code.push_back({ RIns::jump_if, 7, true }); // 7 -> 15
            code.push_back({ RIns::load, 0 }); // 8
            push(integer(1)); // 9
            code.push_back(minus); // 10
            code.push_back({ RIns::call, t == 8 ? 16 : 3 }); // 11
            code.push_back({ RIns::load, 0 }); // 12
            code.push_back({ RIns::load, 1 }); // 13: is not there in any frame ...
            code.push_back(ret); // 14
            code.push_back(ret); // 15
            code.push_back({ RIns::store, 2 }); // 16: ... of the other function
            code.push_back({ RIns::load, 2 }); // 17
            code.push_back({ RIns::call, 3 }); // 18
            code.push_back({ RIns::load, 2 }); // 19
            code.push_back(plus); // 20
            code.push_back(ret); // 21
            if (t == 7) code.erase(code.begin() + 13), code[7].n = 6;
            else code[13] = plus;
            break;
        case 9: // n iterations, each with a fresh variable
            push(integer(N)); // 0
            code.push_back({ RIns::store, 0 }); // 1
            code.push_back({ RIns::load, 0 }); // 2
            push(integer(0)); // 3
            code.push_back({ RIns::bin, 0, false, {}, "==", Op::equals }); // 4
            code.push_back({ RIns::jump_if, 9, true }); // 5 -> 15
            code.push_back({ RIns::load, 0 }); // 6
            code.push_back({ RIns::store, 1 }); // 7
            code.push_back({ RIns::load, 0 }); // 8
            push(integer(1)); // 9
            code.push_back(minus); // 10
            code.push_back({ RIns::store, 0 }); // 11
            code.push_back({ RIns::load, 1 }); // 12
            code.push_back({ RIns::undef, 1 }); // 13
            jump(-13); // 14 -> 2
            code.push_back({ RIns::load, 1 }); // 15
            break;
        case 10: pad(ret); push(integer(4)); pad(pop); break; // returns without calls, in the first cycle or never
        }
        std::vector<b::Instruction> real_code;
        for (auto& i : code) real_code.push_back(real(i, real_code.size()));
        b::Virtual_Machine vm { std::pmr::new_delete_resource() };
        // added in two pieces
        const size_t half = code.size() / 2;
        if (vm.add_instructions(std::span(real_code).first(half)) != 0 || vm.add_instructions(std::span(real_code).subspan(half)) != half || vm.instruction_count() != code.size()) return ctx.fail("wrong address");
        RVM ref;
        ref.code = code;
        for (int round = 0; round < 2; ++round) {
            vm.reset();
            ref.reset();
            if (t == 10 && n) { ref.pc = size_t(n); vm.jump_to(size_t(n)); }
            const long limit = 40 * N + 100;
            long k = 0;
            for (; k < limit; ++k) {
                const std::string e = ref.cycle(), g = real_cycle(vm);
                ++ctx.transitions;
                if (e != g) return ctx.fail("round " + std::to_string(round) + " cycle " + std::to_string(k) + ": expected '" + e + "', got '" + g + "'");
                if (e.empty() && ref.stack.size() != vm.stack_size()) return ctx.fail("round " + std::to_string(round) + " cycle " + std::to_string(k) + ": wrong stack size");
                if (!e.empty()) { ctx.outcome(e.substr(0, e.find(" at "))); break; }
            }
            if (k == limit) ctx.outcome("does not end");
            ++ctx.compared;
            const size_t m = std::min(ref.stack.size(), vm.stack_size());
            while (vm.stack_size() > m) vm.pop();
            while (ref.stack.size() > m) ref.stack.pop_back();
            while (!ref.stack.empty()) {
                const std::string e = show(ref.stack.back()), g = str(vm.pop());
                ref.stack.pop_back();
                if (e != g) return ctx.fail("round " + std::to_string(round) + ": expected stack value " + e + ", got " + g);
            }
        }
    }
};
Register<Sizes> r3;

// Compiled programs: a call aborted after k cycles, for every k, followed by a reset, must not
// influence a later call.
struct Aborts : Suite {
    const char* name() const override { return "vm_aborts"; }
    const char* bound(Tier t) const override
    {
        return t == Tier::quick ? "compiled programs of 3 functions from 10, called with 3 arguments, aborted after every number of cycles (<=60) and reset; then every function called again must behave as on a fresh machine, for all pairs of such calls"
                                : "the same with 4 functions from 10";
    }
    static const Strings& bodies()
    {
        static const Strings r {
            "return x + 1;",
            "let y = x; let r: Int; while y > 0 { y = y - 1; r = (x * 2) + y; } return r;",
            "if x > 1 { assert(x == 2); } return x;",
            "let r: Int; if x > 1 { r = 3; } return r;",
            "assert(x != 2); assert(not_two(x)); return 5;",
            "return leaf(x) + (leaf(x + 1) * 2);",
            "return 10 / (x - 1);",
            "let i = x; while true { i = i + 1; if i > 4 { break; } if i == 3 { continue; } assert(i != 9); } return leaf(i);",
            "let y: Int = leaf(x); let z: Uint(4) = x; return y;",
            "assert((x == 1) && (leaf(x) == 4)); return x;",
        };
        return r;
    }
    void enumerate(Tier t, const Emit& emit) override
    {
        Strings ids;
        for (size_t i = 0; i < bodies().size(); ++i) ids.push_back(std::to_string(i));
        all_sequences(ids, t == Tier::quick ? 3 : 4, " ", emit);
    }
    static std::string trace(Pipeline& p, const b::ast::Function& f, int x, uint64_t stop, Ctx& ctx)
    {
        auto& vm = p.analyzed->get_vm();
        vm.jump_to(f.vm_address);
        vm.push(b::Concrete_Value::Int(x));
        std::string r;
        for (uint64_t k = 0; k < stop; ++k) {
            ++ctx.transitions;
            r += real_cycle(vm) + ";" + std::to_string(vm.stack_size());
            if (r.back() == 0) break;
            if (r.find(" at ") != r.npos) break;
        }
        return r;
    }
    void check(std::string_view c, Ctx& ctx) override
    {
        std::string src = "function leaf(x: Int) -> Int { let t: Int; if x > 0 { t = x; } return t + 3; } function not_two(x: Int) -> Bool { return (x > 2) || (x < 2); } ", use = "0";
        int n = 0;
        for (auto& i : split(c)) {
            src += "function f" + std::to_string(n) + "(x: Int) -> Int { " + bodies()[std::stoul(i)] + " } ";
            use = "(" + use + " + f" + std::to_string(n) + "(0))";
            ++n;
        }
        src += "const zz = 0 if true else " + use + ";";
        Pipeline p(src);
        if (!p.ok()) return ctx.fail("program is rejected: " + p.error);
        std::vector<const b::ast::Function*> fs;
        for (int i = 0; i < n; ++i) fs.push_back(p.function("f" + std::to_string(i)));
        auto& vm = p.analyzed->get_vm();
        std::vector<std::vector<std::string>> fresh(fs.size());
        for (size_t i = 0; i < fs.size(); ++i)
            for (int x = 0; x < 3; ++x) {
                Pipeline q(src);
                q.analyzed->get_vm().reset();
                fresh[i].push_back(trace(q, *q.function("f" + std::to_string(i)), x, 200, ctx));
            }
        for (size_t i = 0; i < fs.size(); ++i)
            for (int x = 0; x < 3; ++x)
                for (uint64_t k = 0; k <= 60; ++k) {
                    vm.reset();
                    const std::string part = trace(p, *fs[i], x, k, ctx);
                    if (!fresh[i][size_t(x)].starts_with(part)) return ctx.fail("f" + std::to_string(i) + "(" + std::to_string(x) + ") differs from a fresh machine: " + part + " instead of " + fresh[i][size_t(x)]);
                    for (size_t j = 0; j < fs.size(); ++j)
                        for (int y = 0; y < 3; ++y) {
                            vm.reset();
                            ++ctx.compared;
                            const std::string g = trace(p, *fs[j], y, 200, ctx);
                            if (g != fresh[j][size_t(y)])
                                return ctx.fail("after f" + std::to_string(i) + "(" + std::to_string(x) + ") was aborted in cycle " + std::to_string(k) + " and the machine reset, f" + std::to_string(j) + "(" + std::to_string(y) + ") gives " + g + " instead of " + fresh[j][size_t(y)]);
                            if (k) { vm.reset(); trace(p, *fs[i], x, k, ctx); }
                        }
                    if (part.find(" at ") != part.npos) break;
                }
        ctx.outcome("programs");
    }
};
Register<Aborts> r2;
}
