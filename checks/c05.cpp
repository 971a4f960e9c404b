// C05: the events a reader parser produces depend only on the bytes delivered, whatever the read sizes and buffer alignment.
#include "scenario.hpp"
using namespace sut;
pbt::PropInfo const pbt::g_info{
        "C05",
        "case = one random schema x 1-24 inputs, most of them larger than the internal buffer with tokens, timestamps and events "
        "placed on its half boundaries; each input is parsed once per read schedule (whole, constant, random short reads; 2-5 "
        "schedules) by a new or reused parser and compared with the reference model (every field); plus reader failures at a random "
        "byte (the error must reach the caller, the events before it must be a prefix), completion (done exactly at the end), bounded "
        "number of reads after the end, and a bound on live heap growth. Non-trivial: the input is longer than half the buffer and "
        "at least two schedules were compared.",
        40,
        2048
};
namespace {
auto total(std::vector<Event> const& v) -> size_t {
    size_t n = 0;
    for (auto const& e : v) { n += e.text.size(); }
    return n;
}
}  // namespace
void pbt::prop(Choices& c, Ctx& ctx) {
    model::SchemaOpt so;
    so.max_vars = 4;
    auto s = model::gen_schema(c, so);
    if (c.chance(1, 30)) { s.rules.clear(); }
    auto text = s.text();
    if (ctx.want_desc) { ctx.desc = "schema: " + show(text, 600); }
    auto names = var_names(s);
    model::Parser mp(s);
    auto p = std::make_unique<ls::ReaderParser>(make_ast(text));
    size_t n = gen_input_count(c, 6, cBuf > 4096 ? 12 : 24), longs = cBuf > 4096 ? 6 : 24;
    Desc desc{ctx};
    for (size_t i = 0; i < n; ++i) {
        std::string in;
        model::LogOpt lo;
        size_t kind = c.weighted({3, longs ? 4u : 0u, longs ? 1u : 0u});
        longs -= kind > 0;
        switch (kind) {
            case 0: in = model::gen_log(c, s, lo); break;
            case 1: in = gen_boundary_log(c, s, lo, 5 * cBuf); break;
            default: {  // exact multiples of the half buffer
                auto piece = model::gen_log(c, s, lo);
                if (piece.empty()) { piece = "a\n"; }
                size_t want = cBuf / 2 * (1 + c.draw(5)) + c.draw(3) - 1;
                while (in.size() < want) { in += piece; }
                in.resize(want);
            }
        }
        desc.input(in);
        auto want = run_model(mp, in, names);
        size_t ns = 2 + c.draw(3);
        for (size_t j = 0; j < ns; ++j) {
            auto cp = gen_chunks(c);
            if (ctx.want_desc) { ctx.desc += " " + cp.name + ";"; }
            if (c.chance(1, 40)) { p = std::make_unique<ls::ReaderParser>(make_ast(text)); }
            Feed f;
            f.data = &in;
            f.chunk = cp.fn();
            f.zero_eof = cp.zero_eof;
            bool err = c.chance(1, 6);
            if (err) {
                f.err_at_set = true;
                f.err_at = c.draw(in.size() + 1);
                static std::vector<ls::ErrorCode> const codes{ls::ErrorCode::Errno, ls::ErrorCode::FileNotFound, ls::ErrorCode::NotInit, ls::ErrorCode::BadParam, ls::ErrorCode::Truncated};
                f.err_code = c.pick(codes);
                // the failing read must be one the parser has to make: before the end of the input is known
                auto rd = f.reader();
                ls::ErrorCode ec = ls::ErrorCode::Success;
                auto got = run_reader(*p, rd, in.size() + 2, names, &ec);
                if (ec != f.err_code) {
                    fail(cp.name + ": reader failed with error " + std::to_string(static_cast<int>(f.err_code)) + " after " + std::to_string(f.err_at) + " bytes, the parser "
                         + (ec == ls::ErrorCode::Success ? "finished without an error" : "returned error " + std::to_string(static_cast<int>(ec))));
                }
                if (got.size() > want.size()) { fail(cp.name + ": more events before a reader failure than in the whole input"); }
                auto prefix = want;
                prefix.resize(got.size());
                compare(prefix, got, All, cp.name + ", reader failing at " + std::to_string(f.err_at));
                if (total(got) > f.err_at) { fail("events beyond the delivered data"); }
                ctx.label("reader failures");
                continue;
            }
            auto rd = f.reader();
            auto got = run_reader(*p, rd, in.size() + 2, names);
            compare(want, got, All, cp.name);
            if (f.pos != in.size()) { fail(cp.name + ": parser finished without reading the whole input"); }
            ctx.label("schedules");
        }
        if (in.size() > cBuf / 2 && ns >= 2) { ctx.nontrivial(hash_str(in)); }
        ctx.label("inputs");
        if (in.size() > cBuf) { ctx.label("inputs larger than the static buffer"); }
        if (in.size() % (cBuf / 2) == 0 && !in.empty()) { ctx.label("inputs an exact multiple of half the buffer"); }
    }
    // memory: a few times the largest event, however many such events there are
    if (c.chance(1, cBuf > 4096 ? 20 : 16)) {
        size_t l = cBuf * (1 + c.draw(5)) + c.draw(cBuf);
        size_t k = std::min<size_t>(3 + c.draw(60), 1 + 3000000 / (l + 1));
        std::vector<std::string> lines;
        size_t toks = 0, big = 0;
        std::string in;
        for (size_t q = 0; q < k; ++q) {
            std::string unit = model::gen_log(c, s, {}).substr(0, 40);
            unit.erase(std::remove(unit.begin(), unit.end(), '\n'), unit.end());
            auto line = unit + std::string(c.chance(1, 4) ? c.draw(l) : l, s.alphabet[c.draw(s.alphabet.size())]) + "\n";
            big = std::max(big, line.size());
            toks = std::max(toks, unit.size() + 4);
            in += line;
            lines.push_back(std::move(line));
        }
        auto ts = s.has_ts();
        std::vector<std::string> want = lines;
        if (ts) {
            want.clear();
            toks = big = 0;
            for (auto const& e : mp.parse(in)) {
                want.push_back(e.text);
                big = std::max(big, e.text.size());
                toks = std::max(toks, e.toks.size());
            }
        }
        ls::ReaderParser q(make_ast(text));
        Feed f;
        f.data = &in;
        auto cp = gen_chunks(c);
        if (cp.mode == 1) { cp.k += cBuf / 4; }
        if (cp.mode == 2) { cp.list.push_back(cBuf / 2); }
        f.chunk = cp.fn();
        f.zero_eof = cp.zero_eof;
        auto rd = f.reader();
        q.reset_and_set_reader(rd);
        reset_peak_heap();
        auto base = live_heap();
        size_t at = 0;
        while (!q.done()) {
            if (q.parse_next_event() != ls::ErrorCode::Success) { fail("error while parsing large events"); }
            auto got = q.get_log_parser().get_log_event_view().to_string();
            if (at >= want.size() ? !got.empty() : got != want[at]) {
                fail("large events (" + std::to_string(big) + " bytes at most): event " + std::to_string(at) + " differs from the text delivered: \"" + show(got, 120) + "\"");
            }
            ++at;
        }
        if (at < want.size()) { fail("large events: " + std::to_string(want.size()) + " events in, " + std::to_string(at) + " out"); }
        uint64_t used = peak_heap() - base, bound = 16384 + 8 * cBuf + 16 * big + 1024 * toks;
        if (used > bound) {
            fail("parsing " + std::to_string(k) + " events of at most " + std::to_string(big) + " bytes grew the heap by " + std::to_string(used) + " bytes");
        }
        ctx.label("large event cases");
    }
    // memory: proportional to the largest event, not to the input
    if (c.chance(1, cBuf > 4096 ? 24 : 8)) {
        std::string line;
        std::string unit = model::gen_log(c, s, {});
        unit.erase(std::remove(unit.begin(), unit.end(), '\n'), unit.end());
        line = (s.has_ts() ? rx::sample(*s.rules[0].pat, c, s.alphabet, 30) : std::string()) + unit.substr(0, 60) + "\n";
        size_t k = 60 * cBuf / line.size() + 8000;
        if (!model::Parser(s).tokenize(line).empty()) {
            std::string in;
            for (size_t q = 0; q < k; ++q) { in += line; }
            // upper bound on the size of an event: measured on the model for a few lines
            std::string few;
            for (size_t q = 0; q < 50; ++q) { few += line; }
            size_t big = 0, few_n = 0;
            for (auto const& e : mp.parse(few)) { big = std::max(big, e.text.size()); ++few_n; }
            if (few_n >= 40) {
                ls::ReaderParser q(make_ast(text));
                Feed f;
                f.data = &in;
                auto cp = gen_chunks(c);
                if (cp.mode == 1) { cp.k += cBuf / 4; }
                if (cp.mode == 2) { cp.list.push_back(cBuf / 2); }
                f.chunk = cp.fn();
            f.zero_eof = cp.zero_eof;
                auto rd = f.reader();
                q.reset_and_set_reader(rd);
                reset_peak_heap();
                auto base = live_heap();
                size_t bytes = 0;
                while (!q.done()) {
                    if (q.parse_next_event() != ls::ErrorCode::Success) { fail("error while parsing a repetitive input"); }
                    bytes += q.get_log_parser().get_log_event_view().to_string().size();
                }
                if (bytes != in.size()) { fail("repetitive input: " + std::to_string(in.size()) + " bytes in, " + std::to_string(bytes) + " out"); }
                uint64_t used = peak_heap() - base;
                // one growth step of the static buffer is allowed for (an event across its halves), plus what the largest event needs
                uint64_t bound = 16384 + 6 * cBuf + 1024 * big;
                if (used > bound) {
                    fail("parsing " + std::to_string(in.size()) + " bytes of events of at most " + std::to_string(big)
                         + " bytes grew the heap by " + std::to_string(used) + " bytes");
                }
                ctx.label("memory bound cases");
            }
        }
    }
}
