// Ways of getting a log through the real parsers: chunked readers, whole buffers, buffers in pieces.
#pragma once
#include "sut.hpp"

namespace sut {
#ifdef LOG_SURGEON_VERIF_BUFF_SIZE
constexpr size_t cBuf = LOG_SURGEON_VERIF_BUFF_SIZE;
#else
constexpr size_t cBuf = 48'000;
#endif

// how many bytes the next read returns, out of n possible
struct ChunkPlan {
    unsigned mode{0};
    bool zero_eof{false};
    size_t k{1};
    std::vector<size_t> list;
    std::string name;
    auto fn() const -> std::function<size_t(size_t)> {
        if (mode == 0) { return {}; }
        auto self = *this;
        size_t i = 0;
        return [self, i](size_t n) mutable -> size_t {
            size_t w = self.mode == 1 ? self.k : self.list[i++ % self.list.size()];
            return std::max<size_t>(1, std::min(w, n));
        };
    }
};
inline auto gen_chunks(pbt::Choices& c) -> ChunkPlan {
    ChunkPlan p;
    p.mode = static_cast<unsigned>(c.weighted({3, 3, 4}));
    if (p.mode == 1) {
        p.k = 1 + c.skewed(cBuf);
        p.name = "chunks of " + std::to_string(p.k);
    } else if (p.mode == 2) {
        size_t n = 1 + c.draw(6);
        p.name = "chunks of";
        for (size_t i = 0; i < n; ++i) {
            p.list.push_back(1 + c.skewed(c.chance(1, 2) ? 8 : cBuf));
            p.name += " " + std::to_string(p.list.back());
        }
    } else {
        p.name = "whole reads";
    }
    p.zero_eof = c.chance(1, 5);
    if (p.zero_eof) { p.name += ", end as 0 bytes"; }
    return p;
}
inline auto run_reader(ls::ReaderParser& p, std::string const& in, std::vector<std::string> const& names, ChunkPlan const& cp)
        -> std::vector<Event> {
    Feed f;
    f.data = &in;
    f.chunk = cp.fn();
    f.zero_eof = cp.zero_eof;
    auto rd = f.reader();
    return run_reader(p, rd, in.size() + 2, names);
}

// ---- buffer front end, in pieces, following the documented protocol
struct SplitPlan {
    size_t first{0};
    std::vector<size_t> add;      // bytes appended on each refill (0 allowed)
    bool finish_with_last{true};  // declare the input finished together with the last bytes, or one call later
    unsigned keep_mode{0};        // 0: always move the tail to the front, 1: keep in place, 2: alternate
    unsigned reset_mode{0};       // 1: sometimes move the tail + reset() after a success as well
    std::string name;
};
inline auto gen_split(pbt::Choices& c, size_t n) -> SplitPlan {
    SplitPlan p;
    p.first = c.chance(1, 3) ? c.draw(n + 1) : c.skewed(n);
    size_t k = 1 + c.draw(6);
    for (size_t i = 0; i < k; ++i) { p.add.push_back(c.chance(1, 2) ? c.skewed(8) : c.skewed(n + 1)); }
    // every refill makes the parser start the unfinished event over: keep their number bounded for long inputs
    p.add.push_back(std::max<size_t>(1 + c.skewed(16), n / 24));
    p.finish_with_last = c.chance(1, 2);
    p.keep_mode = static_cast<unsigned>(c.draw(3));
    p.reset_mode = static_cast<unsigned>(c.draw(2));
    p.name = "first " + std::to_string(p.first) + " then +";
    for (auto a : p.add) { p.name += std::to_string(a) + ","; }
    p.name += p.finish_with_last ? " finished with last piece" : " finished one call later";
    p.name += p.keep_mode == 0 ? " tail moved" : p.keep_mode == 1 ? " tail kept in place" : " tail moved/kept alternately";
    if (p.reset_mode) { p.name += " reset after some events"; }
    return p;
}
struct SplitStats {
    size_t refills{0};
    size_t moved{0};
};
inline auto run_buffer_split(
        ls::BufferParser& p,
        std::string const& in,
        std::vector<std::string> const& names,
        SplitPlan const& sp,
        SplitStats* stats = nullptr
) -> std::vector<Event> {
    std::vector<Event> r;
    size_t base = 0;              // input position of the buffer's first byte
    size_t have = sp.first;       // input position of the end of the buffer
    size_t off = 0;
    size_t done_bytes = 0;        // input bytes covered by the returned events
    std::unique_ptr<char[]> buf;
    size_t size = 0;
    auto load = [&] {
        // a fresh, exactly sized block: stale pointers and over-reads become visible
        size = have - base;
        buf.reset(new char[size]);
        std::memcpy(buf.get(), in.data() + base, size);
    };
    load();
    p.reset();
    bool finished = sp.finish_with_last && have == in.size();
    size_t calls = 0, refill = 0, succ = 0;
    while (!p.done()) {
        if (++calls > 8 * in.size() + 64) { pbt::fail("buffer protocol does not finish"); }
        size_t before = off;
        auto e = p.parse_next_event(buf.get(), size, off, finished);
        bool const small = size < 4096;
        if ((small || calls % 512 == 0 || e != ls::ErrorCode::Success || p.done())
            && std::memcmp(buf.get(), in.data() + base, size) != 0)
        {
            pbt::fail("the parser modified the caller's buffer");
        }
        if (e == ls::ErrorCode::Success) {
            r.push_back(observe(p.get_log_parser().get_log_event_view(), names));
            done_bytes += r.back().text.size();
            if (p.done() && !finished) { pbt::fail("done() although the input was not declared finished"); }
            if (r.back().text.empty() && !p.done()) { pbt::fail("empty event returned before the end of the input"); }
            if (base + off != done_bytes) {
                pbt::fail("offset " + std::to_string(off) + " (input position " + std::to_string(base + off)
                          + ") returned with event " + std::to_string(r.size() - 1)
                          + " is not the start of the next event, input position " + std::to_string(done_bytes));
            }
            ++succ;
            if (!p.done() && sp.reset_mode == 1 && succ % 2 == 0 && off > 0 && (small || succ % 256 == 0)) {
                base += off;
                off = 0;
                load();
                p.reset();
                if (stats) { stats->moved++; }
            }
            continue;
        }
        if (e != ls::ErrorCode::BufferOutOfBounds) {
            pbt::fail("parse_next_event returned error " + std::to_string(static_cast<int>(e)));
        }
        if (finished) { pbt::fail("BufferOutOfBounds although the input was declared finished"); }
        if (off != before || base + off != done_bytes) {
            pbt::fail("offset " + std::to_string(off) + " after running out of data is not the start of the unfinished event, "
                      + std::to_string(done_bytes - base));
        }
        if (have == in.size()) {
            finished = true;
        } else {
            have = std::min(in.size(), have + sp.add[refill % sp.add.size()]);
            finished = sp.finish_with_last && have == in.size();
        }
        ++refill;
        bool move = sp.keep_mode == 0 || (sp.keep_mode == 2 && refill % 2 == 0);
        if (move) {
            base += off;
            off = 0;
        }
        load();
    }
    if (stats) { stats->refills += refill; }
    drop_empty_tail(r);
    return r;
}

// how many inputs to run through one schema's parsers, and at most how many long ones
inline auto gen_input_count(pbt::Choices& c, size_t few, size_t many) -> size_t { return 1 + c.draw(c.chance(1, 3) ? few : many); }
// the description of a case with many inputs: the first ones and the last
struct Desc {
    pbt::Ctx& ctx;
    std::string head;
    size_t n{0};
    void input(std::string const& in) {
        if (!ctx.want_desc) { return; }
        if (n++ < 8) { head = ctx.desc; }
        ctx.desc = head + (n > 9 ? " | ... (" + std::to_string(n - 9) + " more inputs)" : "") + " | input: \"" + pbt::show(in, 300) + "\"";
    }
};
// ---- one input through one randomly chosen front end
struct Fronts {
    std::string text;
    std::unique_ptr<ls::ReaderParser> rp;
    std::unique_ptr<ls::BufferParser> bp;
    unsigned w_reader{5}, w_whole{1}, w_split{2};
    explicit Fronts(std::string t) : text(std::move(t)) {}
    // building a parser costs more than many inputs: most cases use one front end
    void choose(pbt::Choices& c) {
        switch (c.weighted({3, 4, 3})) {
            case 0: break;
            case 1: w_whole = w_split = 0; break;
            default: w_reader = 0;
        }
    }
    auto reader() -> ls::ReaderParser& {
        if (!rp) { rp = std::make_unique<ls::ReaderParser>(make_ast(text)); }
        return *rp;
    }
    auto buffer() -> ls::BufferParser& {
        if (!bp) { bp = std::make_unique<ls::BufferParser>(make_ast(text)); }
        return *bp;
    }
    auto run(pbt::Choices& c, std::string const& in, std::vector<std::string> const& names, std::string& what) -> std::vector<Event> {
        switch (c.weighted({w_reader, w_whole, w_split})) {
            case 0: {
                auto cp = gen_chunks(c);
                what = "reader parser, " + cp.name;
                return run_reader(reader(), in, names, cp);
            }
            case 1: what = "buffer parser, whole input"; return run_buffer_whole(buffer(), in, names);
            default: {
                auto sp = gen_split(c, in.size());
                what = "buffer parser, " + sp.name;
                return run_buffer_split(buffer(), in, names, sp);
            }
        }
    }
};

// An input whose interesting parts fall onto the boundaries of the static buffer's halves.
inline auto gen_boundary_log(pbt::Choices& c, model::Schema const& s, model::LogOpt const& o, size_t limit) -> std::string {
    std::string out;
    std::string nd;
    for (char d : s.delims) { if (d != '\n') { nd += d; } }
    size_t n = 1 + c.draw(3);
    size_t half = cBuf / 2;
    size_t b = 0;
    for (size_t i = 0; i < n; ++i) {
        auto piece = model::gen_log(c, s, o);
        b += half * (1 + c.draw(2));
        // place a random position of the piece at the boundary
        size_t at = c.draw(piece.size() + 1);
        size_t want = b > at ? b - at : 0;
        if (out.size() < want && want < limit) {
            size_t fill = want - out.size();
            std::string unit;
            switch (c.weighted({3, 3, 2, 1, 1})) {
                case 0: unit = "x\n"; break;                                       // many events
                case 1: unit = std::string(1, s.alphabet[0]); break;               // one long run
                case 2: unit = std::string(1, s.alphabet[0]) + (nd.empty() ? '\n' : nd[0]); break;  // many tokens, one event
                case 3: unit = "\n"; break;
                default: {
                    unit = model::gen_log(c, s, o);
                    if (unit.empty()) { unit = "y"; }
                }
            }
            std::string f;
            while (f.size() < fill) { f += unit; }
            // end of the filler: often a delimiter or newline so that the piece starts cleanly
            f.resize(fill);
            if (fill > 0 && c.chance(2, 3)) { f.back() = nd.empty() || c.chance(1, 2) ? '\n' : nd[c.draw(nd.size())]; }
            out += f;
        }
        out += piece;
    }
    return out;
}
}  // namespace sut
