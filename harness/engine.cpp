#include "engine.hpp"

#include <atomic>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <new>
#include <set>
#include <sstream>
#include <unordered_set>

#include <fcntl.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define PBT_ASAN 1
#endif
#endif
#if defined(__SANITIZE_ADDRESS__)
#define PBT_ASAN 1
#endif
#ifdef PBT_ASAN
#include <sanitizer/allocator_interface.h>
#include <sanitizer/common_interface_defs.h>
extern "C" auto __asan_default_options() -> char const* {
    return "detect_leaks=0:exitcode=77:abort_on_error=0:handle_abort=1:handle_segv=1:"
           "allocator_may_return_null=0:max_allocation_size_mb=4000:detect_stack_use_after_return=0:"
           "quarantine_size_mb=64:malloc_context_size=12:alloc_dealloc_mismatch=0";
}
extern "C" auto __ubsan_default_options() -> char const* { return "print_stacktrace=1"; }
#else
#include <malloc.h>
#endif

namespace pbt {
// ---------------------------------------------------------------- shared memory with the worker
struct Shm {
    std::atomic<uint64_t> cur_idx;
    std::atomic<uint64_t> done;
    std::atomic<uint32_t> nrec;
    uint32_t flags;
    char msg[8192];
    char desc[16384];
    static constexpr size_t cMaxRec = 1 << 20;
    uint64_t rec[cMaxRec];
};
static Shm* g_shm = nullptr;

// ---------------------------------------------------------------- heap accounting
static std::atomic<uint64_t> g_live{0}, g_peak{0}, g_blocks{0};
static uint64_t g_heap_limit = 0;
static uint64_t g_heap_base = 0;
auto live_heap() -> uint64_t { return g_live; }
auto peak_heap() -> uint64_t { return g_peak; }
auto live_blocks() -> uint64_t { return g_blocks; }
void reset_peak_heap() { g_peak = g_live.load(); }
static void on_alloc(size_t n) {
    ++g_blocks;
    uint64_t l = (g_live += n);
    if (l > g_peak) { g_peak = l; }
    if (g_heap_limit && l > g_heap_base + g_heap_limit) {
        g_heap_limit = 0;
        if (g_shm) {
            std::snprintf(g_shm->msg, sizeof g_shm->msg,
                          "memory: live heap exceeded the bound for one case (%llu bytes)",
                          (unsigned long long)l);
        }
        _exit(78);
    }
}
static void on_free(size_t n) { g_live -= n; --g_blocks; }
#ifdef PBT_ASAN
static void mhook(volatile void const*, size_t n) { on_alloc(n); }
static void fhook(volatile void const* p) {
    if (p) { on_free(__sanitizer_get_allocated_size(const_cast<void const*>(p))); }
}
#endif
}  // namespace pbt
// weak: a check may bring its own allocator
#define PBT_WEAK __attribute__((weak))
#ifndef PBT_ASAN
// fresh memory is never conveniently zero: a member nobody initialised shows (ASan fills it by itself)
static thread_local unsigned g_fill_turn;
PBT_WEAK auto operator new(size_t n) -> void* {
    void* p = std::malloc(n ? n : 1);
    if (!p) { throw std::bad_alloc(); }
    static constexpr unsigned char cFill[4] = {0x01, 0xa5, 0x00, 0xff};
    std::memset(p, cFill[g_fill_turn++ & 3], n < 4096 ? n : 4096);
    pbt::on_alloc(malloc_usable_size(p));
    return p;
}
PBT_WEAK void operator delete(void* p) noexcept {
    if (p) { pbt::on_free(malloc_usable_size(p)); std::free(p); }
}
PBT_WEAK void operator delete(void* p, size_t) noexcept { operator delete(p); }
PBT_WEAK auto operator new[](size_t n) -> void* { return operator new(n); }
PBT_WEAK void operator delete[](void* p) noexcept { operator delete(p); }
PBT_WEAK void operator delete[](void* p, size_t) noexcept { operator delete(p); }
#endif

namespace pbt {
// ---------------------------------------------------------------- choices
static auto splitmix(uint64_t& x) -> uint64_t {
    uint64_t z = (x += 0x9E37'79B9'7F4A'7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58'476D'1CE4'E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D0'49BB'1331'11EBULL;
    return z ^ (z >> 31);
}
Choices::Choices(uint64_t seed, uint64_t idx) : m_mode(Mode::Random) {
    uint64_t x = seed * 0xD134'2543'DE82'EF95ULL ^ (idx + 1) * 0xDA94'2042'E4DD'58B5ULL;
    m_s[0] = splitmix(x);
    m_s[1] = splitmix(x);
}
Choices::Choices(std::vector<uint64_t> const& v) : m_mode(Mode::Replay), m_src(v) {}
Choices::Choices(uint8_t const* d, size_t n) : m_mode(Mode::Bytes), m_data(d), m_n(n) {}
auto Choices::next() -> uint64_t {
    uint64_t s1 = m_s[0];
    uint64_t const s0 = m_s[1];
    uint64_t const r = s0 + s1;
    m_s[0] = s0;
    s1 ^= s1 << 23;
    m_s[1] = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5);
    return r;
}
auto Choices::draw(uint64_t n) -> uint64_t {
    if (n <= 1) { return 0; }
    uint64_t v = 0;
    switch (m_mode) {
        case Mode::Random: v = static_cast<uint64_t>((static_cast<unsigned __int128>(next()) * n) >> 64); break;
        case Mode::Replay:
            v = m_pos < m_src.size() ? m_src[m_pos] : 0;
            ++m_pos;
            if (v >= n) { v = n - 1; }
            break;
        case Mode::Bytes: {
            uint64_t m = n - 1;
            while (m) {
                v = (v << 8) | (m_pos < m_n ? m_data[m_pos] : 0);
                ++m_pos;
                m >>= 8;
            }
            v %= n;
            break;
        }
    }
    if (m_rec.size() < Shm::cMaxRec) {
        m_rec.push_back(v);
        if (g_shm) {
            g_shm->rec[m_rec.size() - 1] = v;
            g_shm->nrec = m_rec.size();
        }
    }
    return v;
}
auto Choices::skewed(uint64_t max) -> uint64_t {
    uint64_t bits = 0;
    while ((max >> bits) != 0) { ++bits; }
    uint64_t b = draw(bits + 1);
    uint64_t hi = b == 0 ? 0 : ((1ULL << b) - 1);
    if (hi > max) { hi = max; }
    return draw(hi + 1);
}
auto Choices::weighted(std::initializer_list<uint32_t> w) -> size_t {
    uint64_t t = 0;
    for (auto x : w) { t += x; }
    uint64_t r = draw(t);
    size_t i = 0;
    for (auto x : w) {
        if (r < x) { return i; }
        r -= x;
        ++i;
    }
    return 0;
}
auto hash_bytes(void const* p, size_t n, uint64_t h) -> uint64_t {
    auto const* b = static_cast<unsigned char const*>(p);
    for (size_t i = 0; i < n; ++i) { h = (h ^ b[i]) * 1099511628211ULL; }
    return h;
}
auto show(std::string const& s, size_t max) -> std::string {
    std::string o;
    size_t n = 0;
    for (unsigned char c : s) {
        if (n++ >= max) { o += "...(" + std::to_string(s.size()) + " bytes)"; break; }
        if (c == '\n') { o += "\\n"; }
        else if (c == '\r') { o += "\\r"; }
        else if (c == '\t') { o += "\\t"; }
        else if (c == '\\') { o += "\\\\"; }
        else if (c < 32 || c >= 127) { char b[8]; std::snprintf(b, sizeof b, "\\x%02x", c); o += b; }
        else { o += static_cast<char>(c); }
    }
    return o;
}

// ---------------------------------------------------------------- running one case
enum Outcome { Pass = 0, Viol = 10, Disc = 11 };
static void set_timer(uint32_t s) {
    itimerval t{};
    t.it_value.tv_sec = s;
    setitimer(ITIMER_PROF, &t, nullptr);
}
static auto run_case(Choices& c, Ctx& ctx) -> int {
#ifndef PBT_ASAN
    g_fill_turn = 0;
#endif
    g_heap_base = g_live;
    g_heap_limit = g_info.heap_limit_mb << 20;
    int r = Pass;
    try {
        prop(c, ctx);
    } catch (Violation const& v) {
        std::snprintf(g_shm->msg, sizeof g_shm->msg, "%s", v.what());
        r = Viol;
    } catch (Discard const&) {
        r = Disc;
    } catch (std::exception const& e) {
        std::snprintf(g_shm->msg, sizeof g_shm->msg, "unexpected exception: %s", e.what());
        r = Viol;
    }
    g_heap_limit = 0;
    return r;
}

// keeps the description of a case that ends its process
static Ctx* g_ctx = nullptr;
static void save_desc() {
    if (g_ctx && g_shm && g_ctx->want_desc) { std::snprintf(g_shm->desc, sizeof g_shm->desc, "%s", g_ctx->desc.c_str()); }
}
static void on_fatal(int sg) {
    save_desc();
    signal(sg, SIG_DFL);
    raise(sg);
}
static void arm_desc(Ctx& ctx) {
    g_ctx = &ctx;
    signal(SIGPROF, on_fatal);
#ifdef PBT_ASAN
    __sanitizer_set_death_callback(save_desc);
#else
    for (int sg : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL}) { signal(sg, on_fatal); }
#endif
}

struct Result {
    bool failed{false};
    std::string kind;
    std::string msg;
    std::string desc;
    std::vector<uint64_t> rec;
};
static std::string g_log_prefix;
static std::string g_work_dir = "/tmp";
auto work_dir() -> std::string const& { return g_work_dir; }
static uint64_t g_execs = 0;

static auto read_tail(std::string const& p, size_t n) -> std::string {
    std::ifstream f(p);
    std::stringstream ss;
    ss << f.rdbuf();
    auto s = ss.str();
    // keep the informative part of sanitizer reports
    auto q = s.find("ERROR: AddressSanitizer");
    if (q == std::string::npos) { q = s.find("runtime error:"); }
    if (q == std::string::npos) { q = s.find("ssertion"); }
    if (q != std::string::npos) {
        auto b = s.rfind('\n', q);
        s = s.substr(b == std::string::npos ? 0 : b + 1);
    }
    if (s.size() > n) { s.resize(n); }
    return s;
}
static auto describe_exit(int st, std::string const& errfile, Shm* shm) -> std::pair<std::string, std::string> {
    if (WIFSIGNALED(st)) {
        int sg = WTERMSIG(st);
        if (sg == SIGPROF) { return {"hang", "no termination within the CPU limit of one case"}; }
        return {"crash", "killed by signal " + std::to_string(sg) + " (" + strsignal(sg) + ")\n" + read_tail(errfile, 3000)};
    }
    int ec = WEXITSTATUS(st);
    if (ec == 78) { return {"memory", shm->msg}; }
    return {"crash", "exit status " + std::to_string(ec) + "\n" + read_tail(errfile, 3000)};
}
static auto exec_child(Choices c, bool want_desc) -> Result {
    ++g_execs;
    std::string err = g_log_prefix + ".shrink.err";
    g_shm->nrec = 0;
    g_shm->msg[0] = 0;
    g_shm->desc[0] = 0;
    std::fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        int fd = open(err.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
        dup2(fd, 2);
        dup2(fd, 1);
        set_timer(g_info.case_cpu_limit_s);
        Ctx ctx;
        ctx.want_desc = want_desc;
        arm_desc(ctx);
        int r = run_case(c, ctx);
        if (want_desc) { std::snprintf(g_shm->desc, sizeof g_shm->desc, "%s", ctx.desc.c_str()); }
        _exit(r);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    Result r;
    r.rec.assign(g_shm->rec, g_shm->rec + g_shm->nrec);
    r.desc = g_shm->desc;
    if (WIFEXITED(st) && WEXITSTATUS(st) == Pass) { return r; }
    if (WIFEXITED(st) && WEXITSTATUS(st) == Disc) { return r; }
    r.failed = true;
    if (WIFEXITED(st) && WEXITSTATUS(st) == Viol) {
        r.kind = "violation";
        r.msg = g_shm->msg;
    } else {
        auto [k, m] = describe_exit(st, err, g_shm);
        r.kind = k;
        r.msg = m;
    }
    return r;
}
static auto exec_child(std::vector<uint64_t> const& v, bool want_desc) -> Result { return exec_child(Choices(v), want_desc); }

// runs cases first, first+stride, ... (count of them) one after the other in one child process
static auto exec_seq(uint64_t seed, uint64_t first, uint64_t stride, uint64_t count) -> Result {
    ++g_execs;
    std::string err = g_log_prefix + ".shrink.err";
    g_shm->nrec = 0;
    g_shm->msg[0] = 0;
    g_shm->desc[0] = 0;
    std::fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        int fd = open(err.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
        dup2(fd, 2);
        dup2(fd, 1);
        int r = Pass;
        for (uint64_t k = 0; k < count && r != Viol; ++k) {
            set_timer(g_info.case_cpu_limit_s);
            Choices c(seed, first + k * stride);
            Ctx ctx;
            ctx.want_desc = k + 1 == count;
            arm_desc(ctx);
            r = run_case(c, ctx);
            g_ctx = nullptr;
            set_timer(0);
            if (ctx.want_desc) { std::snprintf(g_shm->desc, sizeof g_shm->desc, "%s", ctx.desc.c_str()); }
        }
        _exit(r);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    Result r;
    r.desc = g_shm->desc;
    if (WIFEXITED(st) && (WEXITSTATUS(st) == Pass || WEXITSTATUS(st) == Disc)) { return r; }
    r.failed = true;
    if (WIFEXITED(st) && WEXITSTATUS(st) == Viol) {
        r.kind = "violation";
        r.msg = g_shm->msg;
    } else {
        auto [k, m] = describe_exit(st, err, g_shm);
        r.kind = k;
        r.msg = m;
    }
    return r;
}

static auto now() -> double {
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

static auto shrink(std::vector<uint64_t> cur, double budget_s) -> std::vector<uint64_t> {
    double t_end = now() + budget_s;
    auto better = [](std::vector<uint64_t> const& a, std::vector<uint64_t> const& b) {
        if (a.size() != b.size()) { return a.size() < b.size(); }
        return a < b;
    };
    auto attempt = [&](std::vector<uint64_t> cand) -> bool {
        if (now() > t_end) { return false; }
        auto r = exec_child(cand, false);
        if (!r.failed) { return false; }
        // what was really consumed
        auto rec = r.rec;
        while (!rec.empty() && rec.back() == 0) { rec.pop_back(); }
        if (better(rec, cur)) { cur = rec; return true; }
        return false;
    };
    while (!cur.empty() && cur.back() == 0) { cur.pop_back(); }
    bool progress = true;
    while (progress && now() < t_end) {
        progress = false;
        // delete blocks
        for (size_t k = std::max<size_t>(1, cur.size() / 2); k >= 1; k = k > 8 ? k / 2 : k - 1) {
            for (size_t i = cur.size() >= k ? cur.size() - k : 0; now() < t_end;) {
                if (cur.size() >= k && i + k <= cur.size()) {
                    auto cand = cur;
                    cand.erase(cand.begin() + i, cand.begin() + i + k);
                    if (attempt(cand)) { progress = true; }
                }
                if (i == 0) { break; }
                i = i > k ? i - k : 0;
                if (cur.size() > 3000 && k < 16) { break; }
            }
            if (cur.size() > 3000 && k < 16) { break; }
        }
        // zero blocks
        for (size_t k : {16, 4, 1}) {
            for (size_t i = 0; i < cur.size() && now() < t_end; i += k) {
                auto cand = cur;
                bool any = false;
                for (size_t j = i; j < std::min(cur.size(), i + k); ++j) {
                    any |= cand[j] != 0;
                    cand[j] = 0;
                }
                if (any && attempt(cand)) { progress = true; }
            }
        }
        // lower values
        for (size_t i = 0; i < cur.size() && now() < t_end; ++i) {
            uint64_t lo = 0;
            while (i < cur.size() && lo < cur[i] && now() < t_end) {
                auto cand = cur;
                uint64_t mid = lo + (cur[i] - lo) / 2;
                cand[i] = mid;
                if (mid < cur[i] && attempt(cand)) { progress = true; }
                else { lo = mid + 1; }
            }
            // lower one, delete following (length-prefixed lists)
            if (i < cur.size() && cur[i] > 0) {
                auto cand = cur;
                cand[i]--;
                if (i + 1 < cand.size()) { cand.erase(cand.begin() + i + 1); }
                if (attempt(cand)) { progress = true; }
            }
        }
    }
    return cur;
}

static auto jstr(std::string const& s) -> std::string {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += static_cast<char>(c); }
        else if (c == '\n') { o += "\\n"; }
        else if (c < 32 || c >= 127) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else { o += static_cast<char>(c); }
    }
    return o + "\"";
}
}  // namespace pbt

#ifdef PBT_LIBFUZZER
namespace {
struct FuzzStats {
    uint64_t evals{0}, nontriv{0}, disc{0};
    std::unordered_set<uint64_t> hashes;
    std::vector<std::string> samples;
    std::map<std::string, uint64_t> labels;
    void write() {
        char const* f = std::getenv("PBT_STATS_FILE");
        if (f == nullptr) { return; }
        std::ofstream o(f);
        o << "{\"evaluations\":" << evals << ",\"nontrivial\":" << nontriv << ",\"discarded\":" << disc << ",\"distinct\":" << hashes.size()
          << ",\"labels\":{";
        bool first = true;
        for (auto& [k, n] : labels) { o << (first ? "" : ",") << pbt::jstr(k) << ":" << n; first = false; }
        o << "},\"samples\":[";
        for (size_t i = 0; i < samples.size(); ++i) { o << (i ? "," : "") << pbt::jstr(samples[i]); }
        o << "]}\n";
    }
};
FuzzStats* g_fs = nullptr;
}  // namespace
extern "C" auto LLVMFuzzerTestOneInput(uint8_t const* data, size_t n) -> int {
    using namespace pbt;
    if (g_fs == nullptr) {
        g_fs = new FuzzStats;
        g_shm = static_cast<Shm*>(mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
        if (char const* w = std::getenv("PBT_WORK")) { g_work_dir = w; }
        std::atexit([] { g_fs->write(); });
    }
    Choices c(data, n);
    Ctx ctx;
    ctx.want_desc = g_fs->samples.size() < 2 && g_fs->evals % 100 == 99;
    g_shm->nrec = 0;
    int r = run_case(c, ctx);
    ++g_fs->evals;
    if (r == Disc) { ++g_fs->disc; return -1; }
    if (r == Viol) {
        // the bytes are in libFuzzer's artifact
        std::fprintf(stderr, "PBT VIOLATION: %s\n", g_shm->msg);
        __builtin_trap();
    }
    for (auto& [k, v] : ctx.labels) { g_fs->labels[k] += v; }
    if (ctx.is_nontrivial) {
        ++g_fs->nontriv;
        if (g_fs->hashes.size() < 2000000) { g_fs->hashes.insert(ctx.hash); }
        if (ctx.want_desc && !ctx.desc.empty()) { g_fs->samples.push_back(ctx.desc); }
    }
    return 0;
}
#else
auto main(int argc, char** argv) -> int {
    using namespace pbt;
    uint64_t seed = 1, cases = 100, workers = 8, first = 0;
    double max_s = 300, shrink_s = 40;
    std::string out = "/dev/stdout", replay, bytes, failout = "/dev/null", work = "/tmp";
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string a = argv[i], v = argv[i + 1];
        if (a == "--seed") { seed = std::stoull(v); }
        else if (a == "--cases") { cases = std::stoull(v); }
        else if (a == "--first") { first = std::stoull(v); }
        else if (a == "--workers") { workers = std::stoull(v); }
        else if (a == "--max-seconds") { max_s = std::stod(v); }
        else if (a == "--shrink-seconds") { shrink_s = std::stod(v); }
        else if (a == "--out") { out = v; }
        else if (a == "--fail-out") { failout = v; }
        else if (a == "--work") { work = v; }
        else if (a == "--replay") { replay = v; }
        else if (a == "--bytes") { bytes = v; }
        else { std::fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
    }
    g_work_dir = work;
    g_log_prefix = work + "/" + g_info.id + "." + std::to_string(getpid());
#ifdef PBT_ASAN
    __sanitizer_install_malloc_and_free_hooks(mhook, fhook);
#endif
    auto new_shm = [] {
        return static_cast<Shm*>(mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    };
    if (!replay.empty()) {
        g_shm = new_shm();
        std::ifstream f(replay);
        std::vector<uint64_t> v;
        uint64_t x = 0;
        std::string head;
        Result r;
        if (f >> head && head == "SEQ") {
            uint64_t a[4]{};
            for (auto& y : a) { f >> y; }
            r = exec_seq(a[0], a[1], a[2], a[3]);
        } else {
            f.close();
            f.open(replay);
            while (f >> x) { v.push_back(x); }
            r = exec_child(v, true);
        }
        std::cout << "description: " << r.desc << "\n";
        std::cout << (r.failed ? "FAILED [" + r.kind + "] " + r.msg : std::string("passed")) << "\n";
        unlink((g_log_prefix + ".shrink.err").c_str());
        return r.failed ? 1 : 0;
    }
    if (!bytes.empty()) {
        // an input found by the coverage-guided search: confirm it, shrink it, describe it
        g_shm = new_shm();
        std::ifstream f(bytes, std::ios::binary);
        std::stringstream ss;
        ss << f.rdbuf();
        auto const data = ss.str();
        auto r = exec_child(Choices(reinterpret_cast<uint8_t const*>(data.data()), data.size()), false);
        int ok = 0;
        int const need = r.kind == "hang" ? 1 : 3;
        Result fin;
        if (r.failed) {
            auto rec = r.rec;
            for (int k = 0; k < need; ++k) { fin = exec_child(rec, true); ok += fin.failed; }
            if (ok == need) {
                auto small = shrink(rec, shrink_s);
                ok = 0;
                for (int k = 0; k < need; ++k) { fin = exec_child(small, true); ok += fin.failed; }
                if (ok < need) { small = rec; fin = exec_child(rec, true); ok = need; }
                fin.rec = small;
            }
        }
        unlink((g_log_prefix + ".shrink.err").c_str());
        bool const violated = r.failed && ok == need;
        std::ofstream o(out);
        o << "{\"violated\":" << (violated ? "true" : "false") << ",\"case\":0,\"kind\":" << jstr(violated ? fin.kind : r.kind)
          << ",\"message\":" << jstr(violated ? fin.msg : r.msg) << ",\"description\":" << jstr(fin.desc) << "}\n";
        if (violated) {
            std::ofstream ff(failout);
            for (auto v : fin.rec) { ff << v << " "; }
            ff << "\n";
        }
        return violated ? 1 : 0;
    }
    double t0 = now();
    struct W {
        pid_t pid{-1};
        Shm* shm{nullptr};
        uint64_t next{0};
        bool finished{false};
    };
    std::string seq_replay;
    std::vector<W> ws(workers);
    auto res_file = [&](size_t w) { return g_log_prefix + ".w" + std::to_string(w) + ".res"; };
    auto hash_file = [&](size_t w) { return g_log_prefix + ".w" + std::to_string(w) + ".hash"; };
    auto err_file = [&](size_t w) { return g_log_prefix + ".w" + std::to_string(w) + ".err"; };
    for (size_t w = 0; w < workers; ++w) {
        ws[w].shm = new_shm();
        ws[w].next = first + w;
        unlink(res_file(w).c_str());
        unlink(hash_file(w).c_str());
    }
    auto spawn = [&](size_t w) {
        auto& W = ws[w];
        std::fflush(nullptr);
        pid_t pid = fork();
        if (pid != 0) { W.pid = pid; return; }
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        g_shm = W.shm;
        int fd = open(err_file(w).c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
        dup2(fd, 2);
        int nul = open("/dev/null", O_WRONLY);
        dup2(nul, 1);
        std::map<std::string, uint64_t> labels;
        uint64_t evals = 0, nontriv = 0, disc = 0;
        std::vector<std::string> samples;
        std::unordered_set<uint64_t> hashes;
        int code = 0;
        for (uint64_t i = W.next; i < first + cases; i += workers) {
            if (now() - t0 > max_s) { break; }
            g_shm->cur_idx = i;
            g_shm->nrec = 0;
            set_timer(g_info.case_cpu_limit_s);
            Choices c(seed, i);
            Ctx ctx;
            ctx.want_desc = samples.size() < 2;
            int r = run_case(c, ctx);
            set_timer(0);
            ++evals;
            g_shm->done = evals;
            if (r == Disc) { ++disc; continue; }
            if (r == Viol) { code = Viol; break; }
            for (auto& [k, n] : ctx.labels) { labels[k] += n; }
            if (ctx.is_nontrivial) {
                ++nontriv;
                hashes.insert(ctx.hash);
                if (samples.size() < 2 && !ctx.desc.empty()) { samples.push_back(ctx.desc); }
            }
        }
        std::ofstream o(res_file(w), std::ios::app);
        o << "E " << evals << "\nN " << nontriv << "\nD " << disc << "\n";
        for (auto& [k, n] : labels) { o << "L " << n << " " << k << "\n"; }
        for (auto& s : samples) { o << "S " << jstr(s) << "\n"; }
        o.close();
        std::ofstream h(hash_file(w), std::ios::app | std::ios::binary);
        for (auto x : hashes) { h.write(reinterpret_cast<char const*>(&x), 8); }
        h.close();
        _exit(code);
    };
    std::vector<std::string> unrepro;
    auto kill_all = [&] {
        for (auto& W : ws) {
            if (W.pid > 0) { kill(W.pid, SIGKILL); waitpid(W.pid, nullptr, 0); W.pid = -1; }
        }
    };
    Result final_fail;
    bool violated = false;
    uint64_t fail_idx = 0;
    for (size_t w = 0; w < workers; ++w) { spawn(w); }
    size_t running = workers;
    double extra = 0;
    while (running > 0) {
        int st = 0;
        pid_t p = waitpid(-1, &st, 0);
        if (p < 0) { if (errno == EINTR) { continue; } break; }
        size_t w = workers;
        for (size_t i = 0; i < workers; ++i) { if (ws[i].pid == p) { w = i; } }
        if (w == workers) { continue; }
        ws[w].pid = -1;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { --running; continue; }
        // a failing case
        uint64_t idx = ws[w].shm->cur_idx;
        std::vector<uint64_t> rec(ws[w].shm->rec, ws[w].shm->rec + ws[w].shm->nrec);
        std::string kind, msg;
        if (WIFEXITED(st) && WEXITSTATUS(st) == Viol) { kind = "violation"; msg = ws[w].shm->msg; }
        else { auto [k, m] = describe_exit(st, err_file(w), ws[w].shm); kind = k; msg = m; }
        g_shm = ws[w].shm;
        int again = 0;
        Result last;
        int const need = kind == "hang" ? 1 : 3;
        for (int k = 0; k < need; ++k) { last = exec_child(rec, false); again += last.failed; if (!last.failed) { break; } }
        if (again < need) {
            // it may take the cases this worker ran before: replay its history in one process
            uint64_t count = (idx - ws[w].next) / workers + 1;
            auto seq_fails = [&](uint64_t n) -> bool {
                for (int k = 0; k < 2; ++k) {
                    final_fail = exec_seq(seed, idx - (n - 1) * workers, workers, n);
                    if (!final_fail.failed) { return false; }
                }
                return true;
            };
            if (count > 1 && now() - t0 < max_s + 120 && seq_fails(count)) {
                kill_all();
                double ts = now();
                // shorter history that still fails
                uint64_t best = count;
                for (uint64_t n = 2; n < best && now() - ts < shrink_s; n = n * 2) {
                    if (seq_fails(n)) { best = n; }
                }
                final_fail = exec_seq(seed, idx - (best - 1) * workers, workers, best);
                if (!final_fail.failed) { final_fail = exec_seq(seed, idx - (best - 1) * workers, workers, best); }
                final_fail.failed = true;
                final_fail.msg += "\n(fails only after " + std::to_string(best - 1) + " earlier cases in the same process)";
                seq_replay = "SEQ " + std::to_string(seed) + " " + std::to_string(idx - (best - 1) * workers) + " "
                             + std::to_string(workers) + " " + std::to_string(best);
                violated = true;
                fail_idx = idx;
                break;
            }
            unrepro.push_back("case " + std::to_string(idx) + " [" + kind + "] " + msg);
            if (unrepro.size() > 20) { --running; continue; }
            ws[w].next = idx + workers;
            spawn(w);
            continue;
        }
        double ts = now();
        kill_all();
        auto small = shrink(rec, shrink_s);
        extra += now() - ts;
        int ok = 0;
        for (int k = 0; k < need; ++k) { final_fail = exec_child(small, true); ok += final_fail.failed; }
        if (ok < need) { small = rec; final_fail = exec_child(rec, true); }
        final_fail.rec = small;
        violated = true;
        fail_idx = idx;
        break;
    }
    kill_all();
    uint64_t evals = 0, nontriv = 0, disc = 0;
    std::map<std::string, uint64_t> labels;
    std::vector<std::string> samples;
    std::unordered_set<uint64_t> hashes;
    for (size_t w = 0; w < workers; ++w) {
        std::ifstream f(res_file(w));
        std::string line;
        while (std::getline(f, line)) {
            char t = line[0];
            auto rest = line.substr(2);
            if (t == 'E') { evals += std::stoull(rest); }
            else if (t == 'N') { nontriv += std::stoull(rest); }
            else if (t == 'D') { disc += std::stoull(rest); }
            else if (t == 'L') { auto sp = rest.find(' '); labels[rest.substr(sp + 1)] += std::stoull(rest.substr(0, sp)); }
            else if (t == 'S') { samples.push_back(rest); }
        }
        std::ifstream h(hash_file(w), std::ios::binary);
        uint64_t x = 0;
        while (h.read(reinterpret_cast<char*>(&x), 8)) { hashes.insert(x); }
        if (violated) { evals += ws[w].shm->done; }
        unlink(res_file(w).c_str());
        unlink(hash_file(w).c_str());
        unlink(err_file(w).c_str());
    }
    unlink((g_log_prefix + ".shrink.err").c_str());
    std::ofstream o(out);
    o << "{\"id\":" << jstr(g_info.id) << ",\"seed\":" << seed << ",\"requested\":" << cases << ",\"evaluations\":" << evals
      << ",\"nontrivial\":" << nontriv << ",\"distinct_nontrivial\":" << hashes.size() << ",\"discarded\":" << disc
      << ",\"wall_s\":" << (now() - t0) << ",\"rule\":" << jstr(g_info.rule) << ",\"labels\":{";
    bool f1 = true;
    for (auto& [k, n] : labels) { o << (f1 ? "" : ",") << jstr(k) << ":" << n; f1 = false; }
    o << "},\"samples\":[";
    for (size_t i = 0; i < samples.size() && i < 6; ++i) { o << (i ? "," : "") << samples[i]; }
    o << "],\"unreproducible\":[";
    for (size_t i = 0; i < unrepro.size(); ++i) { o << (i ? "," : "") << jstr(unrepro[i]); }
    o << "],\"violated\":" << (violated ? "true" : "false");
    if (violated) {
        o << ",\"case\":" << fail_idx << ",\"kind\":" << jstr(final_fail.kind) << ",\"message\":" << jstr(final_fail.msg)
          << ",\"description\":" << jstr(final_fail.desc) << ",\"shrink_execs\":" << g_execs;
        std::ofstream ff(failout);
        if (!seq_replay.empty()) { ff << seq_replay; }
        else { for (auto v : final_fail.rec) { ff << v << " "; } }
        ff << "\n";
    }
    o << "}\n";
    return violated ? 1 : 0;
}
#endif
