#include "harness.hpp"

#include <algorithm>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <map>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include "common/assert.hpp"

#ifdef VERIF_COVERAGE
extern "C" void __gcov_dump();
#endif

namespace verif {

std::vector<Suite*>& suites()
{
    static std::vector<Suite*> s;
    return s;
}

std::string escape(std::string_view s)
{
    std::string r;
    char buf[8];
    for (unsigned char c : s) {
        if (c == '\\') r += "\\\\";
        else if (c == '\n') r += "\\n";
        else if (c == '\t') r += "\\t";
        else if (c == '\r') r += "\\r";
        else if (c < 32 || c >= 127) {
            std::snprintf(buf, sizeof buf, "\\x%02x", c);
            r += buf;
        }
        else r += char(c);
    }
    return r;
}

std::string unescape(std::string_view s)
{
    std::string r;
    for (size_t i = 0; i < s.size(); ++i) {
        if (s[i] != '\\' || i + 1 == s.size()) { r += s[i]; continue; }
        switch (s[++i]) {
        case 'n': r += '\n'; break;
        case 't': r += '\t'; break;
        case 'r': r += '\r'; break;
        case 'x': r += char(std::stoi(std::string(s.substr(i + 1, 2)), nullptr, 16)); i += 2; break;
        default: r += s[i];
        }
    }
    return r;
}

namespace {

constexpr size_t max_labels = 96, label_len = 56, max_case = 1 << 20, max_samples = 6;

struct Label { char name[label_len]; uint64_t count; };
struct Slot {
    volatile uint64_t index; // index of the case being checked
    volatile uint64_t done; // cases completed
    volatile uint64_t heartbeat;
    volatile int busy;
    volatile int exhausted; // the enumeration ran to its end
    uint64_t transitions, compared;
    Label labels[max_labels];
    uint64_t sample_count;
    char samples[max_samples][512];
    volatile uint32_t case_len;
    char case_text[max_case];
    volatile uint32_t fail_len; // set when a violation was found by the oracle
    char fail_text[max_case];
};

Slot* g_slot = nullptr;

std::string describe_exception()
{
    try { throw; }
    catch (const bit_manipulation::Assertion_Error& e) {
        return "internal assertion failed: " + std::string(e.message) + " at "
            + std::string(e.location.file_name()).substr(std::string(e.location.file_name()).find_last_of('/') + 1)
            + ":" + std::to_string(e.location.line());
    }
    catch (const std::exception& e) { return std::string("escaped exception: ") + e.what(); }
    catch (...) { return "escaped exception of unknown type"; }
}

void run_one(Suite& s, std::string_view c, Ctx& ctx)
{
    try { s.check(c, ctx); }
    catch (...) { ctx.fail(describe_exception()); }
}

struct Confirmed { bool bad; std::string message; };

// Runs `before` and then one case in a fresh process; returns what the case did.
Confirmed confirm(Suite& s, std::string_view c, bool quiet, const std::function<void()>& before = {}, unsigned limit = 0)
{
    limit += 2 * s.hang_seconds();
    int fd[2];
    if (pipe(fd) != 0) std::abort();
    std::fflush(nullptr);
    pid_t p = fork();
    if (p == 0) {
        close(fd[0]);
        g_slot = nullptr;
        if (s.isolate_stdout()) {
            int dn = open("/dev/null", O_WRONLY);
            dup2(dn, 1);
            if (quiet) dup2(dn, 2);
        }
        if (before) {
            before();
            (void)!write(fd[1], "\1", 1); // from here on, failures belong to the case itself
        }
        Ctx ctx;
        run_one(s, c, ctx);
        std::string out;
        for (auto& f : ctx.failures) out += f + "\n";
        out.resize(std::min<size_t>(out.size(), 60000));
        (void)!write(fd[1], out.data(), out.size());
        _exit(ctx.failures.empty() ? 0 : 1);
    }
    close(fd[1]);
    std::string out;
    char buf[4096];
    fcntl(fd[0], F_SETFL, O_NONBLOCK);
    auto start = std::chrono::steady_clock::now();
    int st = 0;
    bool hang = false;
    while (true) {
        ssize_t n = read(fd[0], buf, sizeof buf);
        if (n > 0) { out.append(buf, n); continue; }
        pid_t r = waitpid(p, &st, WNOHANG);
        if (r == p) {
            while ((n = read(fd[0], buf, sizeof buf)) > 0) out.append(buf, n);
            break;
        }
        if (std::chrono::steady_clock::now() - start > std::chrono::seconds(limit)) {
            kill(p, SIGKILL);
            waitpid(p, &st, 0);
            hang = true;
            break;
        }
        usleep(1000);
    }
    close(fd[0]);
    if (before) {
        if (out.empty()) return { false, "" };
        out.erase(0, 1);
    }
    if (hang) return { true, "does not terminate within " + std::to_string(limit) + " s" };
    if (WIFSIGNALED(st)) return { true, std::string("killed by signal ") + strsignal(WTERMSIG(st)) };
    if (WEXITSTATUS(st) == 0) return { false, "" };
    if (out.empty()) return { true, "process exited with status " + std::to_string(WEXITSTATUS(st))
                              + " (sanitizer report or exit call)" };
    return { true, out };
}

std::string json(std::string_view s)
{
    std::string r = "\"";
    char b[8];
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c >= 127) { std::snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += char(c);
    }
    return r + "\"";
}

} // namespace

void Ctx::fail(std::string m) { failures.push_back(std::move(m)); }

void Ctx::outcome(std::string_view l)
{
    if (!g_slot) return;
    for (auto& e : g_slot->labels) {
        if (e.name[0] == 0) {
            std::memcpy(e.name, l.data(), std::min(l.size(), label_len - 1));
            e.count = 1;
            return;
        }
        if (std::strncmp(e.name, l.data(), std::min(l.size(), label_len - 1)) == 0
            && e.name[std::min(l.size(), label_len - 1)] == 0) {
            ++e.count;
            return;
        }
    }
}

namespace {

void worker(Suite& s, Tier tier, unsigned k, unsigned n, uint64_t start, Slot* slot, uint64_t seed)
{
    g_slot = slot;
    if (s.isolate_stdout()) {
        int dn = open("/dev/null", O_WRONLY);
        dup2(dn, 1);
        if (!getenv("VERIF_STDERR")) dup2(dn, 2);
    }
    uint64_t i = 0;
    bool failed = false;
    s.enumerate(tier, [&](std::string_view c) -> bool {
        uint64_t idx = i++;
        if (idx % n != k || idx < start) return true;
        if (c.size() >= max_case) std::abort();
        slot->busy = 0;
        slot->index = idx;
        std::memcpy(slot->case_text, c.data(), c.size());
        slot->case_len = uint32_t(c.size());
        slot->heartbeat = slot->heartbeat + 1;
        slot->busy = 1;
        Ctx ctx;
        run_one(s, c, ctx);
        slot->busy = 0;
        slot->done = slot->done + 1;
        slot->transitions += ctx.transitions;
        slot->compared += ctx.compared;
        // deterministic reservoir for samples
        uint64_t h = (idx + 1) * 0x9E3779B97F4A7C15ull ^ seed * 0xD1B54A32D192ED03ull;
        h ^= h >> 29;
        if (slot->sample_count < max_samples || h % 4099 == 0) {
            std::string e = escape(c);
            e.resize(std::min<size_t>(e.size(), 500));
            std::strcpy(slot->samples[slot->sample_count++ % max_samples], e.c_str());
        }
        if (!ctx.failures.empty()) {
            std::string m;
            for (auto& f : ctx.failures) m += f + "\n";
            m.resize(std::min<size_t>(m.size(), max_case - 1));
            std::memcpy(slot->fail_text, m.data(), m.size());
            slot->fail_len = uint32_t(m.size());
            failed = true;
            return false;
        }
        return true;
    });
    if (!failed) slot->exhausted = 1;
#ifdef VERIF_COVERAGE // a gcov build, to find lines no suite reaches
    __gcov_dump();
#endif
    _exit(0);
}

// What a case that only fails after others failed with: the shortest run of preceding cases of the
// same worker (1, 2, 4, ... or all since its start) after which it fails in a fresh process.
Confirmed confirm_after_history(Suite& s, Tier tier, std::string_view c, unsigned n, uint64_t start, uint64_t idx, unsigned limit, std::vector<std::string>& history)
{
    auto each = [&](uint64_t from, auto&& f) {
        uint64_t i = 0;
        s.enumerate(tier, [&](std::string_view x) -> bool {
            const uint64_t j = i++;
            if (j >= idx) return false;
            if (j >= from && j % n == idx % n) f(x);
            return true;
        });
    };
    const uint64_t available = (idx - std::min(start, idx)) / n;
    for (uint64_t w = 1; available; w *= 2) {
        if (w > 4096) w = available;
        w = std::min(w, available);
        const uint64_t from = idx - w * n;
        auto r = confirm(s, c, true, [&] { each(from, [&](std::string_view x) { Ctx ctx; run_one(s, x, ctx); }); }, limit);
        if (r.bad) {
            each(from, [&](std::string_view x) { if (history.size() < 5000) history.emplace_back(x); });
            r.message += "(in a process which checked " + std::to_string(w) + " other cases before)\n";
            return r;
        }
        if (w == available) break;
    }
    return { false, "" };
}

} // namespace
} // namespace verif

using namespace verif;

int main(int argc, char** argv)
{
    std::string suite, json_out, replay, replay_dir = ".", prop = "?", known_file;
    Tier tier = Tier::quick;
    unsigned n = 8;
    uint64_t seed = 1;
    uint64_t keep = 1;
    bool list = false;
    double budget = 0; // no time budget by default: a bound is only reported when exhausted
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto v = [&] { return std::string(argv[++i]); };
        if (a == "--suite") suite = v();
        else if (a == "--tier") tier = v() == "thorough" ? Tier::thorough : Tier::quick;
        else if (a == "--json") json_out = v();
        else if (a == "--replay") replay = v();
        else if (a == "--replay-dir") replay_dir = v();
        else if (a == "--property") prop = g_property = v();
        else if (a == "--known") known_file = v();
        else if (a == "--workers") n = std::stoul(v());
        else if (a == "--seed") seed = std::stoull(v());
        else if (a == "--keep-going") keep = std::stoull(v());
        else if (a == "--budget") budget = std::stod(v());
        else if (a == "--list") list = true;
        else if (a == "--case") { // one case, escaped, on the command line
            std::string c = unescape(v());
            for (auto* s : suites()) if (s->name() == suite) {
                auto r = confirm(*s, c, false);
                std::cout << (r.bad ? "BAD: " + r.message : std::string("ok")) << "\n";
                return r.bad;
            }
        }
    }
    if (list) {
        for (auto* s : suites()) std::cout << s->name() << "\n";
        return 0;
    }
    if (!replay.empty()) {
        std::ifstream f(replay);
        std::string line, c;
        std::vector<std::string> history;
        while (std::getline(f, line)) {
            if (line.rfind("before=", 0) == 0) history.push_back(unescape(line.substr(7)));
            if (line.rfind("suite=", 0) == 0) suite = line.substr(6);
            if (line.rfind("property=", 0) == 0) g_property = line.substr(9);
            if (line.rfind("case=", 0) == 0) c = unescape(line.substr(5));
        }
        for (auto* s : suites()) if (s->name() == suite) {
            std::function<void()> before;
            if (!history.empty()) before = [&] { for (auto& x : history) { Ctx ctx; run_one(*s, x, ctx); } };
            auto r = confirm(*s, c, false, before, 60);
            std::cout << "suite " << suite << "\ncase:\n" << c << "\n--\n"
                      << (r.bad ? "VIOLATED: " + r.message : std::string("holds")) << "\n";
            return r.bad;
        }
        return 2;
    }
    Suite* s = nullptr;
    for (auto* x : suites()) if (x->name() == suite) s = x;
    if (!s) { std::cerr << "no such suite " << suite << "\n"; return 2; }

    // Known findings: "KNOWN suite=<suite> case=<escaped case>" lines of the committed file.
    std::set<std::string> known;
    std::map<std::string, std::string> known_desc;
    if (!known_file.empty()) {
        std::ifstream f(known_file);
        std::string line;
        while (std::getline(f, line)) {
            auto cs = line.find(" case=");
            std::string head = "KNOWN suite=" + suite + " ";
            if (line.rfind(head, 0) == 0 && cs != std::string::npos) known.insert(line.substr(cs + 6));
        }
    }

    auto t0 = std::chrono::steady_clock::now();
    std::vector<Slot*> slots(n);
    std::vector<pid_t> pids(n);
    std::vector<uint64_t> last_hb(n, 0), first_index(n, 0);
    std::vector<std::chrono::steady_clock::time_point> spawned(n, t0);
    std::vector<std::chrono::steady_clock::time_point> last_t(n, t0);
    auto spawn = [&](unsigned k, uint64_t start) {
        slots[k]->busy = 0;
        slots[k]->fail_len = 0;
        std::fflush(nullptr);
        pid_t p = fork();
        if (p == 0) worker(*s, tier, k, n, start, slots[k], seed);
        pids[k] = p;
        first_index[k] = start;
        spawned[k] = std::chrono::steady_clock::now();
        last_t[k] = std::chrono::steady_clock::now();
        last_hb[k] = slots[k]->heartbeat;
    };
    for (unsigned k = 0; k < n; ++k) {
        slots[k] = static_cast<Slot*>(mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE,
                                           MAP_SHARED | MAP_ANONYMOUS, -1, 0));
        if (slots[k] == MAP_FAILED) std::abort();
        spawn(k, 0);
    }

    struct Violation { uint64_t index; std::string text, message; std::vector<std::string> history; };
    std::vector<Violation> violations, known_hits;
    std::vector<std::string> unconfirmed;
    bool stop = false, out_of_budget = false;
    unsigned alive = n;
    auto handle = [&](unsigned k) {
        // worker k ended or hung on its current case
        Slot& sl = *slots[k];
        std::string c(sl.case_text, sl.case_len);
        uint64_t idx = sl.index;
        auto r = confirm(*s, c, true);
        std::vector<std::string> history;
        if (!r.bad && unconfirmed.size() < 3) {
            const auto ran = std::chrono::steady_clock::now() - spawned[k];
            r = confirm_after_history(*s, tier, c, n, first_index[k], idx, unsigned(3 * std::chrono::duration_cast<std::chrono::seconds>(ran).count()), history);
        }
        if (r.bad) {
            if (known.count(escape(c))) known_hits.push_back({ idx, c, r.message, {} });
            else violations.push_back({ idx, c, r.message, history });
        }
        else unconfirmed.push_back(escape(c));
        if (unconfirmed.size() > 1000) {
            std::cerr << "workers keep dying outside of cases\n";
            for (unsigned j = 0; j < n; ++j)
                if (pids[j] && j != k) kill(pids[j], SIGKILL);
            std::_Exit(2);
        }
        if (violations.size() >= keep) stop = true;
        if (!stop) spawn(k, idx + 1);
        else { pids[k] = 0; --alive; }
    };
    while (alive > 0 && !stop) {
        bool any = false;
        for (unsigned k = 0; k < n && !stop; ++k) {
            if (!pids[k]) continue;
            int st;
            if (waitpid(pids[k], &st, WNOHANG) == pids[k]) {
                any = true;
                if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && slots[k]->exhausted) {
                    pids[k] = 0;
                    --alive;
                }
                else handle(k);
                continue;
            }
            auto now = std::chrono::steady_clock::now();
            if (slots[k]->heartbeat != last_hb[k] || !slots[k]->busy) {
                last_hb[k] = slots[k]->heartbeat;
                last_t[k] = now;
            }
            else if (now - last_t[k] > std::chrono::seconds(s->hang_seconds())) {
                kill(pids[k], SIGKILL);
                waitpid(pids[k], &st, 0);
                handle(k);
            }
        }
        if (budget > 0
            && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > budget) {
            out_of_budget = true;
            break;
        }
        if (!any) usleep(2000);
    }
    for (unsigned k = 0; k < n; ++k)
        if (pids[k]) { kill(pids[k], SIGKILL); waitpid(pids[k], nullptr, 0); }

    double wall = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    uint64_t states = 0, trans = 0, comp = 0;
    bool exhausted = true;
    std::map<std::string, uint64_t> hist;
    std::vector<std::string> samples;
    for (unsigned k = 0; k < n; ++k) {
        states += slots[k]->done;
        trans += slots[k]->transitions;
        comp += slots[k]->compared;
        exhausted &= bool(slots[k]->exhausted);
        for (auto& l : slots[k]->labels) if (l.name[0]) hist[l.name] += l.count;
        for (size_t i = 0; i < std::min<uint64_t>(slots[k]->sample_count, max_samples); ++i)
            samples.push_back(slots[k]->samples[i]);
    }
    std::ranges::sort(violations, {}, &Violation::index);
    std::sort(samples.begin(), samples.end(), [](auto& a, auto& b) { return a.size() != b.size() ? a.size() < b.size() : a < b; });
    if (samples.size() > 12) {
        std::vector<std::string> t;
        for (size_t i = 0; i < 12; ++i) t.push_back(samples[i * samples.size() / 12]);
        samples = t;
    }

    std::vector<std::string> paths;
    for (size_t i = 0; i < violations.size(); ++i) {
        std::string p = replay_dir + "/" + prop + "-" + suite + "-" + std::to_string(i) + ".replay";
        std::ofstream f(p);
        f << "property=" << prop << "\nsuite=" << suite;
        for (auto& x : violations[i].history) f << "\nbefore=" << escape(x);
        f << "\ncase=" << escape(violations[i].text)
          << "\nmessage=" << escape(violations[i].message) << "\n# replay: " << argv[0]
          << " --replay " << p << "\n";
        paths.push_back(p);
        std::cout << "---- case " << violations[i].index << "\n" << violations[i].text << "\n-- "
                  << violations[i].message << "\n";
        std::cout << "VIOLATION property=" << prop << " replay=" << p << std::endl;
    }
    for (auto& kh : known_hits)
        std::cout << "KNOWN-HIT suite=" << suite << " case=" << escape(kh.text) << "\n";
    std::cout << "suite " << suite << ": states=" << states << " transitions=" << trans
              << " compared=" << comp << " exhausted=" << exhausted << " wall=" << wall << "s\n";
    for (auto& [l, c] : hist) std::cout << "  " << l << ": " << c << "\n";
    for (auto& u : unconfirmed) std::cout << "  unconfirmed (did not reproduce): " << u << "\n";

    if (!json_out.empty()) {
        std::ofstream f(json_out);
        f << "{\"suite\":" << json(suite) << ",\"bound\":" << json(s->bound(tier))
          << ",\"states\":" << states << ",\"transitions\":" << trans << ",\"compared\":" << comp
          << ",\"exhausted\":" << (exhausted ? "true" : "false") << ",\"out_of_budget\":"
          << (out_of_budget ? "true" : "false") << ",\"wall_s\":" << wall << ",\"outcomes\":{";
        bool first = true;
        for (auto& [l, c] : hist) { f << (first ? "" : ",") << json(l) << ":" << c; first = false; }
        f << "},\"samples\":[";
        first = true;
        for (auto& x : samples) { f << (first ? "" : ",") << json(x); first = false; }
        f << "],\"known_hits\":[";
        first = true;
        for (auto& x : known_hits) { f << (first ? "" : ",") << json(escape(x.text)); first = false; }
        f << "],\"unconfirmed\":" << unconfirmed.size() << ",\"violations\":[";
        for (size_t i = 0; i < violations.size(); ++i)
            f << (i ? "," : "") << "{\"case\":" << json(violations[i].text) << ",\"message\":"
              << json(violations[i].message) << ",\"replay\":" << json(paths[i]) << "}";
        f << "]}\n";
    }
    return violations.empty() ? 0 : 1;
}
