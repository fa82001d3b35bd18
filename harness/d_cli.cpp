// C27: the command line tool, every combination of command, kind of file, extra argument and
// standard output, decided against what the library says about the file's contents.
#include <fcntl.h>
#include <filesystem>
#include <fstream>
#include <sstream>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include "bms_suite.hpp"
#include "bms_total.hpp"
#include "bmd/codegen/code_string.hpp"
#include "bmd/codegen/codegen.hpp"
#include "bmd/html/doc_to_html.hpp"
#include "bmd/html/html_writer.hpp"
#include "bmd/html/token_consumer.hpp"
#include "bmd/parsing/parse.hpp"
#include "common/diagnostics.hpp"

using namespace verif;
namespace b = bm::bms;
namespace d = bm::bmd;
namespace {

struct File {
    std::string name;
    std::optional<std::string> text; // none: there is no such file
    bool directory = false;
};

const std::vector<File>& files()
{
    static const std::vector<File> f {
        { "good.bms", "const n: Int = 5;\nfunction f(x: Uint(8)) -> Uint(8)\n{\n    if (x == 1) { return x & 3; }\n    return ~x;\n}\nstatic_assert(n > 4);\n" },
        { "one.bms", "// only a comment" },
        { "empty.bms", "" },
        { "lexer.bms", "let x = 1;\nlet y = 0xg;\n" },
        { "parser.bms", "function f() -> Void {\n    let 1;\n}\n" },
        { "meaning.bms", "const x: Int = 1;\n\tconst y: Bool = x;\n" },
        { "assert.bms", "static_assert(1 > 2);" },
        { "width.bms", "function f(x: Uint(3)) -> Uint(3) { return x; }\n" },
        { "generic.bms", "function g(x: Uint(w)) -> Int { return w; }\nfunction f(x: Uint(8)) -> Int { return g(x); }\n" },
        { "crlf.bms", "const x: Int = 1;\r\nconst y: Bool =\r\n\t x;\r\n" },
        { "tail.bms", "const x = 1;\nconst y = z" },
        { "bytes.bms", std::string("const x = 1; // \xc3\xa4 \x80 \xff\n", 22) },
        { "nul.bms", std::string("const x = 1;\0", 13) },
        { "loop.bms", "function f() -> Int { while true { } return 1; }\nconst x = f();\n" },
        { "annotated.bms", "@inline @c_equivalent(\"f\") function f() -> Void { }\n@instantiate(8) function g(x: Uint(w)) -> Int { return w; }\n" },
        { "zero.bms", "const n: Int = 1 / 0;\n" },
        { "big.bms", [] {
             std::string r;
             for (int i = 0; i < 3000; ++i) r += "const c" + std::to_string(i) + ": Int = " + std::to_string(i) + "; // some text to make this longer\n";
             return r;
         }() },
        { ".bms", "const x: Int = 1;" },
        { "two words.bms", "const x: Int = 2;" },
        { "good.bmd.bms", "const x: Int = 3;" },
        { "good.bmd", "\\meta{\\title{T < U}}\n\nSome \\b{bold} text & \\c{x + 1}.\n\n\\codeblock{\nfunction f() -> Void { }\n}\n\\hr\n\\instruction[arch=x86, ext=bmi1]{andn}\n" },
        { "empty.bmd", "" },
        { "parser.bmd", "text\n\n  \\b{x\n" },
        { "character.bmd", "text\n\\b[=]{x}\n" },
        { "document.bmd", "text\n\n\\c[lang=zz]{x}\n" },
        { "nested.bmd", "\\note{\\ul[a=b, c=1]{\\item{\\b{\\i{x}}}\n\\item{y}}}\n\n\\ol{\\item{1}}\\h2[id=x]{H}" },
        { "crlf.bmd", "a\r\nb\r\n\r\n\\b{c\r\n}\r\n" },
        { "tail.bmd", "a\n\n\\zz" },
        { "bytes.bmd", "\xc3\xa4 \x80 \xff \\b{\xe2\x82\xac}" },
        { "late.bmd", "text\n\n\\meta{\\title{x}}\n" },
        { "big.bmd", [] {
             std::string r;
             for (int i = 0; i < 2000; ++i) r += "Paragraph \\b{" + std::to_string(i) + "} with some text.\n\n";
             return r;
         }() },
        { "good.bms.bmd", "text" },
        { "good.txt", "text" },
        { "bms", "const x: Int = 1;" },
        { "good.BMS", "const x: Int = 1;" },
        { "missing.bms", {} },
        { "missing.bmd", {} },
        { "missing", {} },
        { "no/such.bms", {} },
        { "dir.bms", {}, true },
        { "dir.bmd", {}, true },
        { "", {} },
    };
    return f;
}

struct Wanted {
    int status = 0;
    std::optional<std::string> out; // complete standard output, if specified
    std::string contains; // otherwise something that it contains
    std::optional<std::string> file; // contents of the output file
};

struct Recorder final : d::HTML_Token_Consumer {
    std::string text;
    bool write(char c, d::HTML_Token_Type) final { text += c; return true; }
    bool write(char c, bm::Size n, d::HTML_Token_Type) final { text.append(n, c); return true; }
    bool write(std::string_view s, d::HTML_Token_Type) final { text += s; return true; }
};

// What the tool must do, said with the library that the other properties are about.
Wanted bms_command(const std::string& command, const File& f, const std::string& extra, std::pmr::memory_resource* memory)
{
    std::ostringstream o;
    auto fail = [&] { return Wanted { 1, o.str(), {}, {} }; };
    if (!f.text) return { 1, {}, f.name, {} };
    const std::string_view s = *f.text;
    std::pmr::vector<b::Token> tokens(memory);
    if (auto r = b::tokenize(tokens, s); !r) return bm::print_tokenize_error(o, f.name, s, r.error(), true), fail();
    if (command == "dump_tokens") return bm::print_tokens(o, tokens, s), Wanted { 0, o.str(), {}, {} };
    b::Parsed_Program p { s, memory };
    if (auto r = b::parse(p, tokens); !r) return bm::print_parse_error(o, f.name, s, r.error(), true), fail();
    if (command == "dump_ast") return bm::print_ast(o, p, { .indent_width = 2, .colors = true }), Wanted { 0, o.str(), {}, {} };
    b::Analyzed_Program a { p, f.name, memory };
    if (auto r = b::analyze(a, p, memory); !r) return bm::print_analysis_error(o, p, r.error(), true), fail();
    if (command == "verify") return { 0, {}, "All checks passed", {} };
    const auto l = extra == "bms" || extra == "BMS" ? d::Code_Language::bms : extra == "c" ? d::Code_Language::c : d::Code_Language::cpp;
    d::Code_String c { memory };
    if (auto r = d::generate_code(c, a, l); !r) return { 1, {}, "failed to generate code", {} };
    return { 0, std::string(c.get_text()), {}, {} };
}

struct Cli : Suite {
    const char* name() const override { return "commands"; }
    const char* bound(Tier) const override { return "all combinations of 9 commands, 42 files (good and bad in every phase, empty, large, missing, directories, other suffixes), 17 extra arguments and 3 kinds of standard output; too few arguments"; }
    static constexpr const char* commands[] = { "dump_tokens", "dump_ast", "verify", "generate", "html", "", "HTML", "dump", "help" };
    static const Strings& extras(const std::string& c)
    {
        static const Strings html { "-", "out.html", "old.html", "no/out.html", "dir", "full.html", "null.html", "out.bmd", "" }, generate { "-", "bms", "BMS", "c", "C++", "cpp", "cxx", "rs", "java", "kt", "js", "TypeScript", "Cpp", "zz", "", "bmsx", "bms " }, none { "-", "x" };
        return c == "html" ? html : c == "generate" ? generate : none;
    }
    void enumerate(Tier, const Emit& emit) override
    {
        for (auto c : commands)
            for (size_t f = 0; f < files().size(); ++f)
                for (auto& x : extras(c))
                    for (auto out : { "pipe", "full", "closed" })
                        if (!emit(std::string(c) + "|" + std::to_string(f) + "|" + x + "|" + out)) return;
        for (auto c : { "", "x" })
            for (auto d : commands)
                for (auto out : { "pipe", "full" })
                    if (!emit(std::string("?|") + (*c ? d : "") + "|" + c + "|" + out)) return;
    }
    static std::string read(const std::filesystem::path& p)
    {
        std::ifstream in(p, std::ios::binary);
        std::stringstream s;
        s << in.rdbuf();
        return s.str();
    }

    // Runs the tool in the scratch directory.
    struct Outcome { int status = -1; std::string out; };
    static Outcome run(const std::filesystem::path& dir, std::vector<std::string> args, const std::string& kind)
    {
        static const std::string tool = (std::filesystem::read_symlink("/proc/self/exe").parent_path() / "bm-cli").string();
        const auto sink = dir / "stdout.txt";
        args.insert(args.begin(), "bm-cli");
        const pid_t pid = fork();
        if (pid == 0) {
            if (chdir(dir.c_str())) _exit(99);
            const int null = open("/dev/null", O_RDWR);
            dup2(null, 0);
            dup2(null, 2);
            if (kind == "closed") close(1);
            else {
                const int fd = kind == "full" ? open("/dev/full", O_WRONLY) : open(sink.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
                dup2(fd, 1);
            }
            std::vector<char*> v;
            for (auto& a : args) v.push_back(a.data());
            v.push_back(nullptr);
            alarm(10);
            execv(tool.c_str(), v.data());
            _exit(98);
        }
        int st = 0;
        waitpid(pid, &st, 0);
        Outcome o;
        if (WIFEXITED(st)) o.status = WEXITSTATUS(st);
        if (kind == "pipe") o.out = read(sink);
        std::filesystem::remove(sink);
        return o;
    }

    void check(std::string_view c, Ctx& ctx) override
    {
        Strings k;
        for (size_t at = 0;;) {
            const size_t n = c.find('|', at);
            k.emplace_back(c.substr(at, n - at));
            if (n == c.npos) break;
            at = n + 1;
        }
        char name[] = "/tmp/bm-cli-check-XXXXXX";
        const std::filesystem::path dir = mkdtemp(name);
        struct Remove { std::filesystem::path p; ~Remove() { std::filesystem::remove_all(p); } } remove { dir };
        ctx.transitions++;
        if (k[0] == "?") { // too few arguments
            const auto r = run(dir, k[2].empty() ? Strings {} : Strings { k[1] }, k[3]);
            ctx.compared++;
            if (r.status != 1) return ctx.fail("exit status " + std::to_string(r.status) + " without arguments");
            check_help(r.out, k[3], ctx);
            return;
        }
        const File& f = files()[size_t(std::stoi(k[1]))];
        if (f.directory) std::filesystem::create_directory(dir / f.name);
        else if (f.text) std::ofstream(dir / f.name, std::ios::binary) << *f.text;
        std::filesystem::create_directory(dir / "dir");
        const std::string old(100000, 'o');
        std::ofstream(dir / "old.html") << old;
        std::filesystem::create_symlink("/dev/full", dir / "full.html");
        std::filesystem::create_symlink("/dev/null", dir / "null.html");
        const std::string &command = k[0], &extra = k[2], &kind = k[3];

        std::pmr::unsynchronized_pool_resource memory;
        Wanted w { 1, {}, "", {} };
        bool help = false;
        const bool bms = f.name.ends_with(".bms"), bmd = f.name.ends_with(".bmd"), has_output = command == "html" && extra != "-";
        static const std::set<std::string> implemented { "bms", "BMS", "c", "C++", "cpp", "cxx" }, known { "rs", "java", "kt", "js", "TypeScript" };
        if (command == "dump_tokens" || command == "verify") {
            if (bms) w = bms_command(command, f, "", &memory);
            else w.contains = "'.bms' suffix";
        }
        else if (command == "generate") {
            if (extra == "-") help = true;
            else if (!bms) w.contains = "'.bms' suffix";
            else if (implemented.count(extra)) w = bms_command(command, f, extra, &memory);
            else if (known.count(extra)) { } // documented, but not implemented
            else w.contains = "'" + extra + "'";
        }
        else if (command == "dump_ast" && bms) w = bms_command(command, f, "", &memory);
        else if (command == "dump_ast" || command == "html") {
            if (!f.text) w.contains = f.name;
            else if (!bmd) w.contains = bms && command == "html" ? "not supported" : f.name;
            else {
                std::ostringstream o;
                if (auto p = d::parse(*f.text, &memory); !p) bm::print_parse_error(o, f.name, *f.text, p.error(), true), w.out = o.str();
                else if (command == "dump_ast") bm::print_ast(o, *p, { .indent_width = 2, .max_node_text_length = 30, .colors = true }), w = { 0, o.str(), {}, {} };
                else if (has_output && (extra == "no/out.html" || extra == "dir" || extra.empty())) w.contains = extra;
                else {
                    static constexpr std::string_view sheets[] { "/css/code.css", "/css/main.css" };
                    Recorder r;
                    if (auto h = d::doc_to_html(r, *p, { .indent_width = 2, .stylesheets = sheets }, &memory); !h) {
                        bm::print_document_error(o, f.name, *f.text, h.error(), true);
                        if (has_output) w.out = o.str();
                        else w.contains = o.str();
                    }
                    else if (!has_output) w = { 0, r.text, {}, {} };
                    else if (extra == "full.html") w.contains = extra;
                    else w = { 0, "", {}, r.text };
                }
            }
        }
        else w.contains = "'" + command + "'";

        Strings args { command, f.name };
        if (extra != "-") args.push_back(extra);
        const auto r = run(dir, args, kind);
        ctx.compared++;
        // Nothing needs to be written to standard output when there is an output file.
        const bool needs_output = !(w.out && w.out->empty());
        const int status = w.status == 0 && kind != "pipe" && needs_output ? 1 : w.status;
        ctx.outcome(command + (status ? " fails" : " succeeds"));
        if (r.status != status) return ctx.fail("exit status " + std::to_string(r.status) + " instead of " + std::to_string(status) + ": " + r.out.substr(0, 300));
        if (help) check_help(r.out, kind, ctx);
        if (kind == "pipe") {
            // Colors of error messages are shown; code and HTML are compared without.
            const bool plain = w.status == 0 && (command == "html" || command == "generate");
            if (w.out && (plain ? strip_ansi(r.out) : r.out) != *w.out) return ctx.fail("output is " + r.out.substr(0, 1000) + "\ninstead of " + w.out->substr(0, 1000));
            if (!w.out && (r.out.find(w.contains) == r.out.npos || strip_ansi(r.out).find_first_not_of(" \n") == r.out.npos)) return ctx.fail("output lacks '" + w.contains + "': " + r.out.substr(0, 1000));
        }
        if (w.file && extra != "null.html") {
            if (read(dir / extra) != *w.file) return ctx.fail("the output file has other contents");
        }
        // No other file may be touched.
        if (f.text && read(dir / f.name) != *f.text) return ctx.fail("the source file is changed");
        if (extra != "old.html" && read(dir / "old.html") != old) return ctx.fail("an unrelated file is changed");
        std::set<std::string> there, wanted { "dir", "old.html", "full.html", "null.html" };
        for (auto& e : std::filesystem::recursive_directory_iterator(dir)) there.insert(e.path().lexically_relative(dir).string());
        if (f.text || f.directory) wanted.insert(f.name);
        if (w.file && extra != "null.html") wanted.insert(extra);
        for (auto& t : there)
            if (!wanted.count(t) && !(has_output && t == extra)) return ctx.fail("unexpected file " + t);
    }
    static void check_help(const std::string& out, const std::string& kind, Ctx& ctx)
    {
        if (kind != "pipe") return;
        const std::string s = strip_ansi(out);
        if (s.find("Usage: bm-cli COMMAND") != 0) return ctx.fail("no usage: " + s);
        for (auto h : { "dump_tokens FILE\n", "dump_ast FILE\n", "verify FILE\n", "generate FILE LANGUAGE\n", "html FILE [OUTPUT_FILE]\n" })
            if (s.find(h) == s.npos) return ctx.fail(std::string("usage lacks ") + h);
    }
};
Register<Cli> r_cli;
}
