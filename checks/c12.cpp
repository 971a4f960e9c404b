// C12: results do not depend on heap layout, on uninitialised memory or on what the process did before.
#include <cstdlib>
#include <new>
#include <thread>

#include "automata.hpp"
#include "scenario.hpp"

// ---- an allocator that decides where every object goes and what fresh and freed memory contains
namespace layout {
constexpr size_t cClasses = 65;  // blocks of up to 1024 bytes, in steps of 16
struct Pool {
    char** free{nullptr};
    size_t n{0}, cap{0};
};
static Pool g_pool[2][cClasses];
static unsigned g_mode = 0;  // 0: recently freed first, 1: random slot, 2: lowest address first, 3: highest address first
static unsigned g_fill = 0;  // 0: random bytes, 1: 0xFF, 2: 0x00, 3: 0x01, 4: leave
static uint64_t g_rng = 88172645463325252ULL;
static std::atomic_flag g_lock = ATOMIC_FLAG_INIT;
static auto rnd() -> uint64_t {
    g_rng ^= g_rng << 13;
    g_rng ^= g_rng >> 7;
    return g_rng ^= g_rng << 17;
}
static void fill(char* p, size_t n) {
    switch (g_fill) {
        case 0: {
            uint64_t r = rnd();
            for (size_t i = 0; i < n; ++i) {
                p[i] = static_cast<char>(r >> (8 * (i & 7)));
                if ((i & 7) == 7) { r = r * 6364136223846793005ULL + 1442695040888963407ULL; }
            }
            break;
        }
        case 1: std::memset(p, 0xFF, n); break;
        case 2: std::memset(p, 0, n); break;
        case 3: std::memset(p, 1, n); break;
        default: break;
    }
}
static void push(Pool& q, char* p) {
    if (q.n == q.cap) {
        q.cap = q.cap ? q.cap * 2 : 256;
        q.free = static_cast<char**>(std::realloc(q.free, q.cap * sizeof(char*)));
    }
    q.free[q.n++] = p;
}
struct Lock {
    Lock() { while (g_lock.test_and_set(std::memory_order_acquire)) {} }
    ~Lock() { g_lock.clear(std::memory_order_release); }
};
static auto take(size_t n) -> void* {
    Lock l;
    size_t cls = (n + 15) / 16;
    if (cls == 0) { cls = 1; }
    char* p;
    if (cls >= cClasses) {
        p = static_cast<char*>(std::malloc(n + 16));
        if (!p) { std::abort(); }
        std::memcpy(p, &n, sizeof n);
        fill(p + 16, n);
        return p + 16;
    }
    auto& q = g_pool[0][cls];
    size_t bs = cls * 16 + 16;
    if (q.n < (g_mode == 1 ? 24 : 1)) {
        size_t k = cls < 20 ? 96 : 32;
        char* slab = static_cast<char*>(std::malloc(bs * k));
        if (!slab) { std::abort(); }
        for (size_t i = 0; i < k; ++i) { push(q, slab + bs * (g_mode == 3 ? i : k - 1 - i)); }
    }
    size_t at = q.n - 1;
    if (g_mode == 1) { at = rnd() % q.n; }
    if (g_mode == 2 || g_mode == 3) {
        size_t look = std::min<size_t>(q.n, 16);
        for (size_t i = q.n - look; i < q.n; ++i) { if ((q.free[i] < q.free[at]) == (g_mode == 2)) { at = i; } }
    }
    p = q.free[at];
    q.free[at] = q.free[--q.n];
    std::memcpy(p, &n, sizeof n);
    fill(p + 16, cls * 16);
    return p + 16;
}
static void give(void* v) {
    if (!v) { return; }
    Lock l;
    char* p = static_cast<char*>(v) - 16;
    size_t n;
    std::memcpy(&n, p, sizeof n);
    size_t cls = (n + 15) / 16;
    if (cls == 0) { cls = 1; }
    if (cls >= cClasses) {
        fill(p + 16, std::min<size_t>(n, 4096));
        std::free(p);
        return;
    }
    fill(p + 16, cls * 16);
    push(g_pool[0][cls], p);
}
}  // namespace layout
auto operator new(size_t n) -> void* { return layout::take(n); }
auto operator new[](size_t n) -> void* { return layout::take(n); }
void operator delete(void* p) noexcept { layout::give(p); }
void operator delete(void* p, size_t) noexcept { layout::give(p); }
void operator delete[](void* p) noexcept { layout::give(p); }
void operator delete[](void* p, size_t) noexcept { layout::give(p); }

using namespace sut;
pbt::PropInfo const pbt::g_info{
        "C12",
        "case = one schema with overlapping rules and 1-3 inputs, built and parsed under 3-4 heap layouts chosen by the check's own "
        "operator new (slot order random / ascending / descending / recently freed first; fresh and freed memory filled with random "
        "bytes, 0xFF, 0x00 or 0x01; dirty stack), with different prior activity (other schemas parsed and kept or destroyed, rejected "
        "schemas, junk allocations, another thread). Symbol ids, raw token type ids, events from both front ends, syntax trees, "
        "automaton dumps, intersections and error messages must be identical, and events equal to the reference model. "
        "Non-trivial: a token with two or more types.",
        40,
        4096
};
namespace {
__attribute__((noinline)) void dirty_stack(unsigned char v) {
    volatile unsigned char a[96 * 1024];
    for (size_t i = 0; i < sizeof a; i += 1) { a[i] = v; }
}
struct Result {
    std::string build;                // symbols, trees, automata
    std::vector<std::string> raw;     // raw token type ids per input
    std::vector<std::vector<Event>> rd, bf;
    std::string error;                // message for the broken schema
};
auto raw_ids(ls::ReaderParser& p, std::string const& in) -> std::string {
    Feed f;
    f.data = &in;
    auto rd = f.reader();
    p.reset_and_set_reader(rd);
    std::string o;
    size_t n = 0;
    while (!p.done()) {
        if (p.parse_next_event() != ls::ErrorCode::Success) { fail("parse_next_event fails"); }
        auto const& ob = *p.get_log_parser().get_log_event_view().get_log_output_buffer();
        for (uint32_t i = ob.has_timestamp() ? 0 : 1; i < ob.pos(); ++i) {
            auto& t = ob.get_mutable_token(i);
            o += t.to_string() + ":";
            for (auto id : *t.m_type_ids_ptr) { o += std::to_string(id) + ","; }
        }
        o += ";";
        if (++n > in.size() + 2) { fail("parser does not finish"); }
    }
    return o;
}
}  // namespace
void pbt::prop(Choices& c, Ctx& ctx) {
    model::SchemaOpt so;
    so.min_vars = 2;
    so.max_vars = 6;
    so.captures = c.chance(1, 3);
    so.max_weight = 14;
    auto s = model::gen_schema(c, so);
    auto text = s.text();
    auto names = var_names(s);
    model::LogOpt lo;
    std::vector<std::string> ins;
    size_t n = 1 + c.draw(3);
    for (size_t i = 0; i < n; ++i) { ins.push_back(c.chance(1, 6) ? gen_boundary_log(c, s, lo, 3 * cBuf) : model::gen_log(c, s, lo)); }
    // a schema that is rejected
    std::string bad = text;
    bad.insert(c.draw(bad.size() + 1), 1, "*)]{|"[c.draw(5)]);
    model::SchemaOpt so2;
    so2.max_vars = 3;
    auto other = model::gen_schema(c, so2).text();
    if (ctx.want_desc) {
        ctx.desc = "schema: " + show(text, 500);
        for (auto const& i : ins) { ctx.desc += " | input \"" + show(i, 200) + "\""; }
    }
    std::vector<std::vector<Event>> want;
    bool ambiguous = false;
    {
        model::Parser mp(s);
        for (auto const& in : ins) {
            want.push_back(run_model(mp, in, names));
            for (auto const& e : want.back()) { for (auto const& t : e.toks) { ambiguous |= t.names.size() > 1; } }
        }
    }
    auto probe = rx::print(*s.rules[c.draw(s.rules.size())].pat);
    std::unique_ptr<Result> first;
    std::string first_how;
    size_t layouts = 3 + c.chance(1, 4);
    bool with_buffer = c.chance(1, 3), with_bad = c.chance(1, 3);
    for (size_t k = 0; k < layouts; ++k) {
        layout::g_mode = static_cast<unsigned>(c.draw(4));
        layout::g_fill = static_cast<unsigned>(k < 2 ? k : c.draw(5));
        layout::g_rng = c.draw(1ULL << 40) * 2 + 1;
        std::string how = "layout mode " + std::to_string(layout::g_mode) + " fill " + std::to_string(layout::g_fill);
        dirty_stack(static_cast<unsigned char>(layout::g_fill == 2 ? 0 : layout::g_fill == 1 ? 0xFF : c.draw(256)));
        std::vector<std::unique_ptr<char[]>> junk;
        size_t nj = c.skewed(300);
        for (size_t i = 0; i < nj; ++i) { junk.emplace_back(new char[8 + (i * 37 + k * 11) % 700]); }
        for (size_t i = 0; i < nj; i += 2) { junk[i].reset(); }
        std::vector<std::unique_ptr<ls::ReaderParser>> kept;
        std::string prior = c.chance(1, 2) ? other : text;
        size_t np = c.weighted({5, 2, 1});
        for (size_t i = 0; i < np; ++i) {
            kept.push_back(std::make_unique<ls::ReaderParser>(make_ast(prior)));
            auto const& in = ins[0];
            (void)raw_ids(*kept.back(), in);
            if (c.chance(1, 2)) { kept.pop_back(); }
            how += " prior parser";
        }
        if (c.chance(1, 6)) {
            try {
                (void)make_ast("delimiters: \nx:(a\n");
            } catch (std::exception const&) {}
            how += " prior error";
        }
        auto r = std::make_unique<Result>();
        std::exception_ptr ep;
        auto body = [&] {
            try {
                auto ast = make_ast(text);
                for (auto const& v : ast->m_schema_vars) {
                    auto& sv = dynamic_cast<ls::SchemaVarAST&>(*v);
                    r->build += sv.m_name + "@" + std::to_string(sv.m_line_num) + ":";
                    for (char32_t ch : sv.m_regex_ptr->serialize()) { r->build += ch < 127 ? static_cast<char>(ch) : '?'; }
                    r->build += "\n";
                }
                ls::ReaderParser p(std::move(ast));
                std::unique_ptr<ls::BufferParser> b;
                if (with_buffer) { b = std::make_unique<ls::BufferParser>(make_ast(text)); }
                auto const& lp = p.get_log_parser();
                for (auto const& nm : names) { r->build += nm + "=" + std::to_string(lp.get_symbol_id(nm).value_or(9999)) + " "; }
                for (auto const& nm : names) { if (auto id = lp.get_symbol_id(nm); id && lp.get_id_symbol(*id) != nm) { fail("symbol id " + std::to_string(*id) + " of " + nm + " names " + lp.get_id_symbol(*id)); } }
                aut::Lexer lx;
                auto trees = aut::asts_of({probe, probe});
                lx.add_rule(0, std::move(trees[0]));
                lx.generate();
                r->build += " intersection:";
                for (auto id : lp.m_lexer.get_dfa()->get_intersect(lx.get_dfa())) { r->build += std::to_string(id) + ","; }
                std::vector<aut::Rule> rules;
                rules.emplace_back(0, std::move(trees[1]));
                r->build += "\n" + aut::Nfa{std::move(rules)}.serialize();
                for (auto const& in : ins) {
                    r->raw.push_back(raw_ids(p, in));
                    r->rd.push_back(run_reader(p, in, names));
                    if (b) { r->bf.push_back(run_buffer_whole(*b, in, names)); }
                }
                if (with_bad) try {
                    ls::ReaderParser q(make_ast(bad));
                    r->error = "accepted";
                } catch (std::exception const& e) { r->error = e.what(); }
            } catch (...) { ep = std::current_exception(); }
        };
        if (c.chance(1, 5)) {
            how += " in another thread";
            std::thread t(body);
            t.join();
        } else { body(); }
        if (ep) { std::rethrow_exception(ep); }
        for (size_t i = 0; i < n; ++i) {
            compare(want[i], r->rd[i], All, "reader parser, " + how);
            if (with_buffer) { compare(want[i], r->bf[i], All, "buffer parser, " + how); }
        }
        if (!first) {
            first = std::move(r);
            first_how = how;
        } else {
            if (r->build != first->build) { fail("symbols, trees, automata or intersection differ between " + first_how + " and " + how + ":\n" + show(first->build, 3000) + "\nagainst\n" + show(r->build, 3000)); }
            for (size_t i = 0; i < n; ++i) {
                if (r->raw[i] != first->raw[i]) { fail("raw type ids differ between " + first_how + " and " + how + ":\n" + show(first->raw[i], 1000) + "\nagainst\n" + show(r->raw[i], 1000)); }
            }
            if (r->error != first->error) { fail("the result for the schema " + show(bad, 400) + " differs between " + first_how + " and " + how + ":\n" + show(first->error, 1000) + "\nagainst\n" + show(r->error, 1000)); }
        }
        ctx.label("layouts");
    }
    layout::g_fill = 4;
    layout::g_mode = 0;
    if (ambiguous) {
        ctx.nontrivial(hash_str(text + ins[0]));
        ctx.label("ambiguous tokens");
    }
}
