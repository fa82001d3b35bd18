// C29: memory.  Everything the library allocates for a program or document is given back: blocks of the
// given memory resource to that resource with their size and alignment (or with the resource), all else
// to the heap.
#include "bms_suite.hpp"
#include "bms_total.hpp"

#include "bmd/html/doc_to_html.hpp"
#include "bmd/html/token_consumer.hpp"
#include "bmd/parsing/parse.hpp"
#include <cstdlib>
#include <map>

using namespace verif;
namespace d = bm::bmd;

namespace {
long long live = 0; // blocks of the heap
void* take(std::size_t n, std::size_t a)
{
    n = (std::max<std::size_t>(n, 1) + a - 1) / a * a;
    void* p = a <= alignof(std::max_align_t) ? std::malloc(n) : std::aligned_alloc(a, n);
    if (!p) throw std::bad_alloc();
    ++live;
    return p;
}
void give(void* p) noexcept
{
    if (p) --live;
    std::free(p);
}
}
void* operator new(std::size_t n) { return take(n, 1); }
void* operator new[](std::size_t n) { return take(n, 1); }
void* operator new(std::size_t n, std::align_val_t a) { return take(n, std::size_t(a)); }
void* operator new[](std::size_t n, std::align_val_t a) { return take(n, std::size_t(a)); }
void operator delete(void* p) noexcept { give(p); }
void operator delete[](void* p) noexcept { give(p); }
void operator delete(void* p, std::size_t) noexcept { give(p); }
void operator delete[](void* p, std::size_t) noexcept { give(p); }
void operator delete(void* p, std::align_val_t) noexcept { give(p); }
void operator delete[](void* p, std::align_val_t) noexcept { give(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { give(p); }
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept { give(p); }

namespace {

// Checks what is given back; keeps what is not given back until its end, as a monotonic resource does.
struct Checking_Resource final : std::pmr::memory_resource {
    struct Block { std::size_t size, align; };
    std::map<void*, Block> blocks;
    std::string error;
    long allocations = 0;
    void* do_allocate(std::size_t n, std::size_t a) override
    {
        ++allocations;
        void* p = take(n, a);
        std::memset(p, 0xdb, n);
        blocks[p] = { n, a };
        return p;
    }
    void do_deallocate(void* p, std::size_t n, std::size_t a) override
    {
        auto it = blocks.find(p);
        if (it == blocks.end()) { error = "a block is given back which was not allocated"; return; }
        if (it->second.size != n || it->second.align != a) error = "a block of " + std::to_string(it->second.size) + " bytes is given back as one of " + std::to_string(n);
        std::memset(p, 0xdd, it->second.size);
        give(p);
        blocks.erase(it);
    }
    bool do_is_equal(const memory_resource& o) const noexcept override { return this == &o; }
    ~Checking_Resource() { for (auto& [p, b] : blocks) { std::memset(p, 0xdd, b.size); give(p); } }
};

struct Sink final : d::HTML_Token_Consumer {
    bm::Size size = 0;
    bool write(char, d::HTML_Token_Type) final { ++size; return true; }
    bool write(char, bm::Size n, d::HTML_Token_Type) final { size += n; return true; }
    bool write(std::string_view s, d::HTML_Token_Type) final { size += s.size(); return true; }
};

void use_program(std::string_view text, std::pmr::memory_resource* memory, Ctx& ctx)
{
    using namespace bm::bms;
    std::pmr::vector<Token> tokens(memory);
    std::ostringstream o;
    if (auto r = tokenize(tokens, text); !r) {
        bm::print_tokenize_error(o, "case.bms", text, r.error(), true);
        return ctx.outcome("lexical error");
    }
    bm::print_tokens(o, tokens, text);
    Parsed_Program parsed(text, memory);
    if (auto r = parse(parsed, tokens); !r) {
        bm::print_parse_error(o, "case.bms", text, r.error(), true);
        return ctx.outcome("syntax error");
    }
    bm::print_ast(o, parsed, { .indent_width = 2, .colors = true });
    Analyzed_Program analyzed(parsed, "case.bms", memory);
    if (auto r = analyze(analyzed, parsed, memory); !r) {
        bm::print_analysis_error(o, parsed, r.error(), true);
        return ctx.outcome("rejected");
    }
    auto& vm = analyzed.get_vm();
    for (auto* n : ast::get_children(*analyzed.get_root()))
        if (auto* f = get_if<ast::Function>(n); f && !f->is_generic && f->vm_address != ast::Function::invalid_vm_address) {
            vm.reset();
            vm.jump_to(f->vm_address);
            for (auto& p : f->get_parameters()) vm.push(Concrete_Value { p.get_type().const_value()->get_type(), 1 });
            for (int i = 0; i < 100 && vm.cycle(); ++i) { }
        }
    for (auto language : { d::Code_Language::bms, d::Code_Language::c, d::Code_Language::cpp }) {
        d::Code_String out(memory);
        (void)d::generate_code(out, analyzed, language, {});
    }
    ctx.outcome("accepted");
}
void use_document(std::string_view text, std::pmr::memory_resource* memory, Ctx& ctx)
{
    auto r = d::parse(text, memory);
    std::ostringstream o;
    if (!r) {
        bm::print_parse_error(o, "case.bmd", text, r.error(), true);
        return ctx.outcome("rejected");
    }
    bm::print_ast(o, *r, { .indent_width = 2, .max_node_text_length = 30, .colors = true });
    Sink out;
    const std::string_view sheets[] { "/a.css" };
    auto h = d::doc_to_html(out, *r, { .indent_width = 2, .stylesheets = sheets }, memory);
    if (!h) bm::print_document_error(o, "case.bmd", text, h.error(), true);
    ctx.outcome(h ? "converted" : "not converted");
}

struct Memory : Suite {
    std::string own, inner;
    bool document;
    Memory(std::string inner, bool document) : own("memory_" + inner), inner(std::move(inner)), document(document) { }
    const char* name() const override { return own.c_str(); }
    Suite& target() const
    {
        for (auto* s : suites()) if (s->name() == inner) return *s;
        std::abort();
    }
    const char* bound(Tier t) const override { return target().bound(t); }
    unsigned hang_seconds() const override { return 60; }
    void enumerate(Tier t, const Emit& e) override { target().enumerate(t, e); }
    void check(std::string_view c, Ctx& ctx) override
    {
        auto use = [&] {
            Checking_Resource memory;
            ctx.transitions++;
            document ? use_document(c, &memory, ctx) : use_program(c, &memory, ctx);
            ctx.compared += memory.allocations;
            if (!memory.error.empty()) ctx.fail(memory.error);
        };
        use(); // what is allocated once and for all
        const long long before = live;
        use();
        if (live != before) ctx.fail(std::to_string(live - before) + " blocks of the heap are lost");
    }
};
struct Register_All {
    Register_All()
    {
        for (auto s : { "sequences", "scale", "syntax_edits", "syntax_trees", "names_globals", "typing_statements", "lazy_evaluation", "arguments", "function_ends", "loops", "generic_instances", "generic_deduction", "generic_chains", "assertions", "assertions_dependent", "annotations" })
            suites().push_back(new Memory(s, false));
        for (auto s : { "sequences", "sizes", "strings", "spans", "directives", "arguments", "meta", "code", "raw", "edits" }) suites().push_back(new Memory(std::string("html_") + s, true));
    }
} register_all;
}
