// C30: independence.  Two pieces of work (programs, documents) with memory of their own are done by two
// threads of which one runs at a time; this scheduler decides which, and all its decisions within the
// bound are explored.  Whatever the schedule, each has to come out as it does alone.
// The library is compiled with -finstrument-functions: every entry and exit of one of its functions is a
// point at which the other thread can take over.
#include "bms_suite.hpp"
#include "bms_total.hpp"

#include "bmd/html/doc_to_html.hpp"
#include "bmd/html/token_consumer.hpp"
#include "bmd/parsing/parse.hpp"
#include <chrono>
#include <map>
#include <semaphore>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>

using namespace verif;
namespace d = bm::bmd;

namespace {

struct Scheduler;
struct Worker {
    Scheduler* scheduler = nullptr;
    int index = 0;
    size_t calls = 0, steps = 0; // points passed
    size_t next_call = size_t(-1), next_step = size_t(-1); // where the other one takes over
    std::binary_semaphore go { 0 };
    bool finished = false;
    std::string output;
};
thread_local Worker* self = nullptr;

// Runs two tasks; each of them gives way to the other once, at the given point, and when it is done.
struct Scheduler {
    Worker w[2];
    std::binary_semaphore done { 0 };
    std::atomic<bool> loose = false; // one waits for the other within the library (a lock): let both run

    void give_way(Worker& me)
    {
        Worker& other = w[1 - me.index];
        if (loose || other.finished) return;
        other.go.release();
        while (!me.go.try_acquire_for(std::chrono::milliseconds(100))) {
            if (!loose.exchange(true)) w[0].go.release(), w[1].go.release();
            return;
        }
    }
    void run(const std::function<std::string()>& a, const std::function<std::string()>& b)
    {
        auto body = [this](int i, const std::function<std::string()>& task) {
            return [this, i, &task] {
                Worker& me = w[i];
                me.scheduler = this;
                me.index = i;
                me.go.acquire();
                self = &me;
                me.output = task();
                self = nullptr;
                me.finished = true;
                if (!loose) w[1 - i].go.release();
            };
        };
        std::thread x(body(0, a)), y(body(1, b));
        w[0].go.release();
        x.join();
        y.join();
    }
};

void step() // a point of the coarser kind
{
    if (Worker* me = self; me && ++me->steps == me->next_step) me->scheduler->give_way(*me);
}

struct Resource final : std::pmr::memory_resource {
    void* do_allocate(std::size_t n, std::size_t a) override
    {
        step();
        void* p = std::pmr::new_delete_resource()->allocate(n, a);
        std::memset(p, 0xdb, n);
        return p;
    }
    void do_deallocate(void* p, std::size_t n, std::size_t a) override
    {
        std::memset(p, 0xdd, n);
        std::pmr::new_delete_resource()->deallocate(p, n, a);
    }
    bool do_is_equal(const memory_resource& o) const noexcept override { return this == &o; }
};

struct Sink final : d::HTML_Token_Consumer {
    std::string text;
    bool write(char c, d::HTML_Token_Type t) final { step(); text += char('a' + int(t)); text += c; return true; }
    bool write(char c, bm::Size n, d::HTML_Token_Type t) final { step(); text += char('a' + int(t)); text += std::string(n, c); return true; }
    bool write(std::string_view s, d::HTML_Token_Type t) final { step(); text += char('a' + int(t)); text += s; return true; }
};

// Work on a text in stages; what comes out is collected in `o`.
struct Work {
    std::string_view text;
    Resource memory;
    std::ostringstream o;
    explicit Work(std::string_view text) : text(text) { }
    virtual ~Work() = default;
    virtual bool next() = 0; // whether there is more to do
    virtual std::string output() const { return o.str(); }
};
struct Program_Work final : Work {
    std::pmr::vector<bm::bms::Token> tokens { &memory };
    std::optional<bm::bms::Parsed_Program> parsed;
    std::optional<bm::bms::Analyzed_Program> analyzed;
    int stage = 0;
    using Work::Work;
    bool next() override
    {
        using namespace bm::bms;
        switch (stage++) {
        case 0:
            if (auto r = tokenize(tokens, text); !r) return bm::print_tokenize_error(o, "case.bms", text, r.error(), true), false;
            bm::print_tokens(o, tokens, text);
            return true;
        case 1:
            parsed.emplace(text, &memory);
            if (auto r = parse(*parsed, tokens); !r) return bm::print_parse_error(o, "case.bms", text, r.error(), true), false;
            bm::print_ast(o, *parsed, { .indent_width = 2, .colors = true });
            return true;
        case 2:
            analyzed.emplace(*parsed, "case.bms", &memory);
            if (auto r = analyze(*analyzed, *parsed, &memory); !r) return bm::print_analysis_error(o, *parsed, r.error(), true), false;
            for (auto* n : ast::get_children(*analyzed->get_root()))
                if (auto* c = get_if<ast::Const>(n)) {
                    auto& v = c->const_value();
                    o << c->get_name() << " = " << (v && v->is_known() ? str(v->concrete_value()) : "?") << "\n";
                }
            return true;
        case 3: execute(7); return true; // in the middle of a function
        case 4: execute(300); return true;
        case 5:
            for (auto language : { d::Code_Language::bms, d::Code_Language::c, d::Code_Language::cpp }) {
                d::Code_String out(&memory);
                auto r = d::generate_code(out, *analyzed, language, {});
                if (!r) o << "generation: " << int(r.error().code) << "\n";
                o << out.get_text();
                for (auto s : out) o << s.begin << "," << s.length << "," << int(s.type) << ";";
                step();
            }
            return false;
        }
        return false;
    }
    void execute(int cycles)
    {
        using namespace bm::bms;
        auto& vm = analyzed->get_vm();
        if (cycles > 7 && !vm_done) run_on(cycles); // what was interrupted
        for (auto* n : ast::get_children(*analyzed->get_root()))
            if (auto* f = get_if<ast::Function>(n); f && !f->is_generic && f->vm_address != ast::Function::invalid_vm_address) {
                vm.reset();
                vm.jump_to(f->vm_address);
                for (auto& p : f->get_parameters()) vm.push(Concrete_Value { p.get_type().const_value()->get_type(), 1 });
                o << f->get_name() << ":";
                run_on(cycles);
            }
    }
    bool vm_done = true;
    void run_on(int cycles)
    {
        auto& vm = analyzed->get_vm();
        vm_done = false;
        for (int i = 0; i < cycles && !vm_done; ++i) {
            step();
            auto r = vm.cycle();
            if (!r) { o << " " << execution_error_code_name(r.error().code); vm_done = true; }
        }
        if (vm_done) while (vm.stack_size()) o << " " << str(vm.pop());
        o << "\n";
    }
};
struct Document_Work final : Work {
    using Result_Type = decltype(d::parse(std::string_view {}, static_cast<std::pmr::memory_resource*>(nullptr)));
    std::optional<Result_Type> r;
    Sink out;
    int stage = 0;
    using Work::Work;
    bool next() override
    {
        switch (stage++) {
        case 0:
            r.emplace(d::parse(text, &memory));
            if (!*r) return bm::print_parse_error(o, "case.bmd", text, r->error(), true), false;
            return true;
        case 1: bm::print_ast(o, **r, { .indent_width = 2, .max_node_text_length = 30, .colors = true }); return true;
        case 2: {
            const std::string_view sheets[] { "/a.css" };
            auto h = d::doc_to_html(out, **r, { .indent_width = 2, .stylesheets = sheets }, &memory);
            if (!h) bm::print_document_error(o, "case.bmd", text, h.error(), true);
            return false;
        }
        }
        return false;
    }
    std::string output() const override { return o.str() + out.text; }
};

struct Task { bool document; std::string text; };
constexpr size_t pair_tasks = 12;
const std::vector<Task>& tasks()
{
    static const std::vector<Task> r {
        { false, "function f(x: Uint(w)) -> Uint(w) { return ~x + w; } const a = f(1 as Uint(8)); const b = f(1 as Uint(9));" },
        { false, "function f(x: Int) -> Int { let i = 0; let s = 0; while i < x { i = i + 1; if i == 3 { continue; } s = s * 10 + i; } return s; } const a = f(4);" },
        { true, "\\meta{\\title{T &amp;}}\n\na \\b{c} \\c{let x: Uint(8);}\n\n\\ul{\\item{d}\\item[id=e, n=3]{f}}\n" },
        { false, "function f(x: Uint(w)) -> Int { static_assert(w != 8); return w; } const a = f(1 as Uint(8));" },
        { false, "@inline function f(x: Bool, y: Bool) -> Bool { let z: Bool = x && !y || f(y, x) if x else false; assert(z); return z; } static_assert(1 + 2 == 4);" },
        { true, "a\n\n\\codeblock{function f() -> Void { @unroll(3) while true { } } // \"c\" 0x1F\n}\n\n\\h1{b < c \\i{\\u{d}}}\\hr\n" },
        { false, "function f(x: Int) -> Int { if x < 1 { return 1 / x; } return g(x - 1); } function g(x: Int) -> Int { return f(x); } const a = f(2);" },
        { false, "const a = 0xffff; const b = a = 1;" },
        { true, "a \\b{c\n\nd}" },
        { true, "\\c[lang=klingon]{a}" },
        { false, "const a = $;" },
        { false, "function f(a: Uint(v), b: Uint(w)) -> Int requires v < w { return v * 1000 + w; } const r = f(2 as Uint(8), 1 as Uint(16)) + popcount(7 as Uint(3)); @unroll function g() -> Void { }" },
        // The rest is only processed one after another.
        { false, "" }, { false, "const r = 1;" }, { false, "const r = 1 +;" }, { false, "const r = \"s\";" }, { false, "const r = 0b12;" }, { false, "/* a" }, { false, "const r = 1; const r = 2;" }, { false, "const r: Uint(0) = 1;" }, { false, "const r: Uint(8) = 256;" },
        { false, "const r = 1 / 0;" }, { false, "const r = true + 1;" }, { false, "static_assert(1 == 2);" }, { false, "function f() -> Int { }" }, { false, "const r = f(); function f() -> Int { }" }, { false, "const f = 3; const r = f;" }, { false, "function r() -> Int { return 9; } const f = x();" },
        { false, "function f(x: Int) -> Int { return x + 1; } const r = f(4);" }, { false, "function f(x: Int) -> Int { return x + 2; } const r = f(5);" }, { false, "function f(x: Bool) -> Bool { return !x; } const r = f(true);" },
        { false, "function f(x: Uint(w)) -> Int { return w; } const r = f(1 as Uint(8));" }, { false, "function f(x: Uint(w)) -> Int { return w + 1; } const r = f(1 as Uint(8)); const y = f(1 as Uint(9));" }, { false, "function f(x: Uint(w)) -> Int requires w < 8 { return w; } const r = f(1 as Uint(8));" },
        { false, "function f(x: Int) -> Int { let y: Int; if x == 1 { y = 2; } return y; } const r = f(2);" }, { false, "@inline @inline function f() -> Void { }" }, { false, "function f() -> Void { @unroll(3) while true { } }" }, { false, "function f(x: Int) -> Int { assert(x > 3); return x; } const r = f(3);" },
        { false, "const f = 1; function g() -> Int { { let f = 1; } return f(1); }" }, { false, "function f(x: Uint(128), y: Uint(128)) -> Bool { return x < y; } const r: Uint(128) = 340282366920938463463374607431768211455;" },
        { true, "" }, { true, "a" }, { true, "\\meta{\\title{a}\\title{b}}" }, { true, "a\n\n\\meta{\\title{a}}" }, { true, "\\c{const}\n\n\\c{$}" }, { true, "\\ul{\\item{a}}\n\n\\codeblock[lang=plain]{ a }" },
    };
    return r;
}
std::unique_ptr<Work> begin(const Task& t, std::string_view text)
{
    if (t.document) return std::make_unique<Document_Work>(text);
    return std::make_unique<Program_Work>(text);
}
std::string work(const Task& t, std::string_view text)
{
    auto w = begin(t, text);
    while (w->next()) step();
    return w->output();
}
std::string work(const Task& t) { return work(t, t.text); }

// What comes out of each task in a process which has done nothing else.
const std::string& alone(size_t i)
{
    static const std::vector<std::string> r = [] {
        std::vector<std::string> r;
        for (auto& t : tasks()) {
            int p[2];
            if (pipe(p)) std::abort();
            const pid_t pid = fork();
            if (pid == 0) {
                close(p[0]);
                const std::string s = work(t);
                for (size_t n = 0; n < s.size();) n += size_t(std::max<ssize_t>(write(p[1], s.data() + n, s.size() - n), 0));
                _exit(0);
            }
            close(p[1]);
            std::string s;
            char buffer[4096];
            for (ssize_t n; (n = read(p[0], buffer, sizeof buffer)) > 0;) s.append(buffer, size_t(n));
            close(p[0]);
            int status = 0;
            waitpid(pid, &status, 0);
            if (status) s = "does not come to an end";
            r.push_back(s);
        }
        for (auto& t : tasks()) work(t); // what is done once in a process
        return r;
    }();
    return r[i];
}
// How many points there are in a task.
struct Points { size_t calls, steps; };
Points points(size_t i)
{
    static std::map<size_t, Points> r;
    auto it = r.find(i);
    if (it != r.end()) return it->second;
    alone(i);
    Worker w;
    self = &w;
    work(tasks()[i]);
    self = nullptr;
    return r[i] = { w.calls, w.steps };
}

struct Schedules : Suite {
    bool fine; // one takes over at any call; otherwise both do at any step
    explicit Schedules(bool fine) : fine(fine) { }
    static constexpr size_t parts = 16;
    const char* name() const override { return fine ? "schedules_calls" : "schedules_steps"; }
    const char* bound(Tier t) const override
    {
        if (fine) return t == Tier::quick ? "all ordered pairs of 12 programs and documents (right and wrong): one is interrupted at each 8th entry and exit of functions of the library, the other runs from start to end, and the first goes on"
                                          : "all ordered pairs of 12 programs and documents (right and wrong): one is interrupted at each entry and exit of a function of the library, the other runs from start to end, and the first goes on";
        return t == Tier::quick ? "all ordered pairs of 12 programs and documents: one is interrupted after each of its steps (allocations, instructions executed, tokens of HTML, stages), then the other one after each 5th of its steps, and both go on one after the other"
                                : "all ordered pairs of 12 programs and documents: one is interrupted after each of its steps (allocations, instructions executed, tokens of HTML, stages), then the other one after each of its steps, and both go on one after the other";
    }
    unsigned hang_seconds() const override { return 120; }
    void enumerate(Tier t, const std::function<bool(std::string_view)>& emit) override
    {
        for (size_t a = 0; a < pair_tasks; ++a)
            for (size_t b = 0; b < pair_tasks; ++b)
                for (size_t k = 0; k < parts; ++k)
                    if (!emit(std::to_string(a) + " " + std::to_string(b) + " " + std::to_string(k) + (t != Tier::quick ? " 1" : fine ? " 8" : " 5"))) return;
    }
    void check(std::string_view c, Ctx& ctx) override
    {
        std::istringstream in { std::string(c) };
        size_t a, b, k, stride;
        in >> a >> b >> k >> stride;
        const std::string& one = alone(a);
        const std::string& two = alone(b);
        const Points p = points(a), q = points(b);
        auto explore = [&](size_t i, size_t j) {
            Scheduler s;
            (fine ? s.w[0].next_call : s.w[0].next_step) = i;
            if (!fine) s.w[1].next_step = j;
            s.run([&] { return work(tasks()[a]); }, [&] { return work(tasks()[b]); });
            ctx.transitions++;
            ctx.compared += 2;
            if (s.loose) ctx.outcome("waits");
            for (int x = 0; x < 2; ++x)
                if (s.w[x].output != (x ? two : one)) {
                    ctx.fail("the " + std::string(x ? "second" : "first") + " one comes out differently when the first is interrupted at point " + std::to_string(i) + (fine ? "" : " and the second at point " + std::to_string(j)) + ":\n" + s.w[x].output + "\ninstead of:\n" + (x ? two : one));
                    return false;
                }
            return true;
        };
        ctx.outcome("explored");
        if (fine) {
            for (size_t i = 1 + k * stride; i <= p.calls; i += parts * stride) if (!explore(i, 0)) return;
        }
        else
            for (size_t i = 1 + k; i <= p.steps; i += parts)
                for (size_t j = 1 + i % stride; j <= q.steps; j += stride) if (!explore(i, j)) return;
    }
};
// One after another; all texts are at the same place.
struct Histories : Suite {
    const char* name() const override { return "histories"; }
    const char* bound(Tier t) const override { return t == Tier::quick ? "all sequences of two of all tasks (12 of the pairs and 34 more), and of three of 12, one after another in one process, in the same buffer" : "all sequences of three of all 46 tasks, one after another in one process, in the same buffer"; }
    void enumerate(Tier t, const std::function<bool(std::string_view)>& emit) override
    {
        const size_t n = tasks().size(), few = t == Tier::quick ? pair_tasks : n;
        for (size_t a = 0; a < n; ++a)
            for (size_t b = 0; b < n; ++b) if (!emit(std::to_string(a) + " " + std::to_string(b))) return;
        for (size_t a = 0; a < few; ++a)
            for (size_t b = 0; b < few; ++b)
                for (size_t c = 0; c < few; ++c) if (!emit(std::to_string(a) + " " + std::to_string(b) + " " + std::to_string(c))) return;
    }
    void check(std::string_view c, Ctx& ctx) override
    {
        static char buffer[1024];
        std::istringstream in { std::string(c) };
        for (size_t i; in >> i;) {
            const std::string& expected = alone(i);
            auto& text = tasks()[i].text;
            std::memcpy(buffer, text.data(), text.size());
            const std::string s = work(tasks()[i], std::string_view(buffer, text.size()));
            ctx.transitions++;
            ctx.compared++;
            if (s != expected) return ctx.fail("task " + std::to_string(i) + " comes out as:\n" + s + "\ninstead of:\n" + expected);
        }
        ctx.outcome("explored");
    }
};
// Stage by stage in turns, on one thread.
struct Turns : Suite {
    const char* name() const override { return "turns"; }
    const char* bound(Tier t) const override { return "all ordered pairs of 12 programs and documents, processed in turns on one thread: all interleavings of their stages (of at most 6 each; execution is interrupted)"; }
    void enumerate(Tier t, const std::function<bool(std::string_view)>& emit) override
    {
        for (size_t a = 0; a < pair_tasks; ++a)
            for (size_t b = 0; b < pair_tasks; ++b) if (!emit(std::to_string(a) + " " + std::to_string(b))) return;
    }
    void check(std::string_view c, Ctx& ctx) override
    {
        std::istringstream in { std::string(c) };
        size_t i[2];
        in >> i[0] >> i[1];
        const std::string* expected[2] { &alone(i[0]), &alone(i[1]) };
        std::vector<bool> path; // whose turn it is
        while (true) {
            std::unique_ptr<Work> w[2] { begin(tasks()[i[0]], tasks()[i[0]].text), begin(tasks()[i[1]], tasks()[i[1]].text) };
            bool more[2] { true, true };
            size_t k = 0;
            while (more[0] || more[1]) {
                bool x = more[1];
                if (more[0] && more[1]) { // a choice
                    if (k == path.size()) path.push_back(false);
                    x = path[k++];
                }
                more[x] = w[x]->next();
                ctx.transitions++;
            }
            ctx.compared += 2;
            for (int x = 0; x < 2; ++x)
                if (w[x]->output() != *expected[x]) {
                    std::string turns;
                    for (bool t : path) turns += t ? 'b' : 'a';
                    return ctx.fail(std::string(x ? "the second" : "the first") + " one comes out differently with the turns " + turns + ":\n" + w[x]->output() + "\ninstead of:\n" + *expected[x]);
                }
            path.resize(k);
            while (!path.empty() && path.back()) path.pop_back();
            if (path.empty()) break;
            path.back() = true;
        }
        ctx.outcome("explored");
    }
};
struct Register_All {
    Register_All()
    {
        suites().push_back(new Schedules(true));
        suites().push_back(new Schedules(false));
    }
} register_all;
Register<Histories> r1;
Register<Turns> r2;
}

extern "C" {
void __cyg_profile_func_enter(void*, void*)
{
    if (Worker* me = self; me && ++me->calls == me->next_call) me->scheduler->give_way(*me);
}
void __cyg_profile_func_exit(void*, void*)
{
    if (Worker* me = self; me && ++me->calls == me->next_call) me->scheduler->give_way(*me);
}
}
