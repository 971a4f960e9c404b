// C07: after any history a reset parser behaves like a new one; parsers used alternately do not influence each other.
#include "scenario.hpp"
using namespace sut;
pbt::PropInfo const pbt::g_info{
        "C07",
        "case = a random history of 3-14 operations over 1-3 reader parsers and 1-2 buffer parsers built from one or two schemas: "
        "set a new reader / reset and (a) parse an input completely, (b) abandon it after k events, (c) end it with a reader error, "
        "(d) grow the buffers with an event far larger than them, (e) abandon a buffer mid-event, (f) advance several parsers "
        "alternately event by event, (g) reset twice / parse nothing. After each operation that parses completely the result is compared "
        "with that of a freshly constructed parser and with the reference model. Non-trivial: a complete parse after an "
        "abandoned, failed or grown one on the same parser.",
        40,
        2048
};
namespace {
struct RP {
    size_t schema;
    std::unique_ptr<ls::ReaderParser> p;
    bool dirty{false};
    Feed feed;
    std::string in;
    ls::Reader rd;
    std::vector<Event> got;
    bool active{false};
};
struct BP {
    size_t schema;
    std::unique_ptr<ls::BufferParser> p;
    bool dirty{false};
    bool was_done{false};
};
}  // namespace
void pbt::prop(Choices& c, Ctx& ctx) {
    size_t nsch = 1 + c.draw(2);
    std::vector<model::Schema> ss;
    std::vector<std::string> texts;
    std::vector<std::vector<std::string>> names;
    for (size_t i = 0; i < nsch; ++i) {
        model::SchemaOpt so;
        so.max_vars = 3;
        ss.push_back(model::gen_schema(c, so));
        texts.push_back(ss.back().text());
        names.push_back(var_names(ss.back()));
        if (ctx.want_desc) { ctx.desc += "schema " + std::to_string(i) + ": " + show(texts.back(), 400) + " | "; }
    }
    std::vector<model::Parser> mps;
    for (auto const& s : ss) { mps.emplace_back(s); }
    std::vector<RP> rs(1 + c.draw(3));
    std::vector<BP> bs(1 + c.draw(2));
    for (auto& r : rs) { r.schema = c.draw(nsch); r.p = std::make_unique<ls::ReaderParser>(make_ast(texts[r.schema])); }
    for (auto& b : bs) { b.schema = c.draw(nsch); b.p = std::make_unique<ls::BufferParser>(make_ast(texts[b.schema])); }
    bool first_use = true;
    auto gen_in = [&](size_t sc) {
        model::LogOpt lo;
        lo.ts_bias = c.chance(1, 2);
        std::string in = model::gen_log(c, ss[sc], lo);
        if (c.chance(1, 5)) {  // something that makes the buffers grow
            std::string run;
            size_t len = c.draw(cBuf * 3);
            std::string unit = c.chance(1, 2) ? "a" : ss[sc].delims.size() > 1 ? std::string("a") + ss[sc].delims[1] : "b";
            while (run.size() < len) { run += unit; }
            in += run + model::gen_log(c, ss[sc], lo);
        }
        return in;
    };
    // what a parser's current event shows stays as it is while other parsers are used
    std::map<RP*, std::vector<std::string_view>> held;
    auto hold = [&](RP& r) {
        auto& h = held[&r];
        h.clear();
        auto const& ob = *r.p->get_log_parser().get_log_event_view().get_log_output_buffer();
        for (uint32_t i = ob.has_timestamp() ? 0 : 1; i < ob.pos(); ++i) { h.push_back(ob.get_mutable_token(i).to_string_view()); }
    };
    auto held_same = [&](RP& r) {
        auto it = held.find(&r);
        if (it == held.end()) { return; }
        auto const& toks = r.got.back().toks;
        for (size_t i = 0; i < it->second.size() && i < toks.size(); ++i) {
            if (it->second[i] != toks[i].text) { fail("the text of a token changes while another parser is used: \"" + show(toks[i].text, 60) + "\", then \"" + show(std::string(it->second[i]), 60) + "\""); }
        }
        if (c.chance(1, 4)) {
            auto again = observe(r.p->get_log_parser().get_log_event_view(), names[r.schema]);
            auto d = diff(r.got.back(), again, All);
            if (!d.empty()) { fail("an event changes its " + d + " while another parser is used\n  first " + show(r.got.back()) + "\n  then  " + show(again)); }
        }
        held.erase(it);
    };
    auto desc = [&](std::string const& t) { if (ctx.want_desc) { ctx.desc += t + "; "; } };
    auto verify = [&](size_t sc, std::string const& in, std::vector<Event> const& got, bool dirty, std::string const& what) {
        auto want = run_model(mps[sc], in, names[sc]);
        compare(want, got, All, what);
        if (c.chance(1, 4)) {
            ls::ReaderParser fresh(make_ast(texts[sc]));
            compare(run_reader(fresh, in, names[sc]), got, All, what + " compared with a new parser");
        }
        ctx.label("complete parses compared");
        if (dirty && !in.empty()) { ctx.nontrivial(hash_str(in)); ctx.label("complete parses after an unfinished history"); }
    };
    auto start = [&](RP& r) {
        r.in = gen_in(r.schema);
        r.feed = Feed{};
        r.feed.data = &r.in;
        r.feed.chunk = gen_chunks(c).fn();
        r.rd = r.feed.reader();
        r.p->reset_and_set_reader(r.rd);
        r.got.clear();
        r.active = true;
        if (r.p->done()) { fail("done() right after reset_and_set_reader"); }
    };
    // one event; returns false when finished
    auto step = [&](RP& r, ls::ErrorCode& e) {
        e = r.p->parse_next_event();
        if (e != ls::ErrorCode::Success) { return false; }
        r.got.push_back(observe(r.p->get_log_parser().get_log_event_view(), names[r.schema]));
        if (r.got.size() > r.in.size() + 2) { fail("parser does not finish"); }
        return !r.p->done();
    };
    (void)first_use;
    size_t ops = 3 + c.draw(12);
    for (size_t o = 0; o < ops; ++o) {
        auto& r = rs[c.draw(rs.size())];
        auto& b = bs[c.draw(bs.size())];
        auto rid = std::to_string(&r - rs.data());
        auto bid = std::to_string(&b - bs.data());
        switch (c.weighted({5, 3, 3, 3, 4, 3, 2, 2})) {
            case 0: {
                start(r);
                desc("reader parser " + rid + " parses \"" + show(r.in, 120) + "\"");
                ls::ErrorCode e{};
                while (step(r, e)) {}
                if (e != ls::ErrorCode::Success) { fail("parse error " + std::to_string(static_cast<int>(e))); }
                drop_empty_tail(r.got);
                verify(r.schema, r.in, r.got, r.dirty, "reader parser " + rid + " (history of " + std::to_string(o) + " operations)");
                r.dirty = false;
                r.active = false;
                break;
            }
            case 1: {
                start(r);
                size_t k = c.draw(6);
                desc("reader parser " + rid + " abandons \"" + show(r.in, 120) + "\" after " + std::to_string(k) + " events");
                ls::ErrorCode e{};
                for (size_t i = 0; i < k && step(r, e); ++i) {}
                r.dirty = true;
                r.active = false;
                break;
            }
            case 2: {
                start(r);
                r.feed.err_at_set = true;
                r.feed.err_at = c.draw(r.in.size() + 1);
                desc("reader parser " + rid + " fails at byte " + std::to_string(r.feed.err_at) + " of \"" + show(r.in, 120) + "\"");
                ls::ErrorCode e{};
                while (step(r, e)) {}
                if (e != ls::ErrorCode::Errno) { fail("reader failure was not forwarded"); }
                r.dirty = true;
                r.active = false;
                break;
            }
            case 3: {  // several reader parsers in lock step
                desc("all reader parsers alternately");
                for (auto& x : rs) { start(x); desc("\"" + show(x.in, 80) + "\""); }
                bool any = true;
                while (any) {
                    any = false;
                    for (auto& x : rs) {
                        if (!x.active) { continue; }
                        size_t k = 1 + c.draw(2);
                        ls::ErrorCode e{};
                        held_same(x);
                        for (size_t i = 0; i < k && x.active; ++i) {
                            if (!step(x, e)) {
                                if (e != ls::ErrorCode::Success) { fail("parse error " + std::to_string(static_cast<int>(e))); }
                                x.active = false;
                            }
                        }
                        if (x.active && c.chance(1, 2)) { hold(x); }
                        any = true;
                    }
                }
                for (auto& x : rs) {
                    drop_empty_tail(x.got);
                    verify(x.schema, x.in, x.got, x.dirty, "reader parsers used alternately");
                    x.dirty = false;
                }
                break;
            }
            case 4: {
                auto in = gen_in(b.schema);
                desc("buffer parser " + bid + " parses \"" + show(in, 120) + "\"");
                std::vector<Event> got;
                if (c.chance(1, 2)) { got = run_buffer_whole(*b.p, in, names[b.schema]); }
                else {
                    auto sp = gen_split(c, in.size());
                    desc(sp.name);
                    got = run_buffer_split(*b.p, in, names[b.schema], sp);
                }
                verify(b.schema, in, got, b.dirty, "buffer parser " + bid + " (history of " + std::to_string(o) + " operations)");
                b.dirty = false;
                break;
            }
            case 5: {
                auto in = gen_in(b.schema);
                size_t k = c.draw(5);
                bool fin = c.chance(1, 2);
                size_t len = c.draw(in.size() + 1);
                desc("buffer parser " + bid + " abandons \"" + show(in.substr(0, len), 120) + "\" after " + std::to_string(k) + " events");
                std::unique_ptr<char[]> buf(new char[len]);
                std::memcpy(buf.get(), in.data(), len);
                size_t off = 0;
                b.p->reset();
                for (size_t i = 0; i < k && !b.p->done(); ++i) {
                    if (b.p->parse_next_event(buf.get(), len, off, fin) != ls::ErrorCode::Success) { break; }
                    if (off > len) { fail("offset beyond the buffer"); }
                }
                b.dirty = true;
                break;
            }
            case 6: {  // a parser that already finished the input, or ran out of data, is only reset
                b.p->reset();
                if (c.chance(1, 2)) { b.p->reset(); }
                if (b.p->done()) { fail("done() after reset()"); }
                desc("buffer parser " + bid + " reset");
                break;
            }
            default: {  // BufferOutOfBounds resets the parser by itself: go on with other data without calling reset
                auto in = gen_in(b.schema);
                size_t cut = c.draw(in.size() + 1);
                desc("buffer parser " + bid + " runs out of data in \"" + show(in.substr(0, cut), 120) + "\", then other input without reset");
                std::unique_ptr<char[]> buf(new char[cut]);
                std::memcpy(buf.get(), in.data(), cut);
                size_t off = 0;
                b.p->reset();
                ls::ErrorCode e{};
                size_t g = 0;
                while ((e = b.p->parse_next_event(buf.get(), cut, off, false)) == ls::ErrorCode::Success) {
                    if (++g > cut + 2) { fail("parser does not run out of data"); }
                }
                if (e != ls::ErrorCode::BufferOutOfBounds) { fail("unexpected error " + std::to_string(static_cast<int>(e))); }
                auto in2 = gen_in(b.schema);
                std::unique_ptr<char[]> buf2(new char[in2.size()]);
                std::memcpy(buf2.get(), in2.data(), in2.size());
                buf.reset();
                off = 0;
                std::vector<Event> got;
                while (!b.p->done()) {
                    if (b.p->parse_next_event(buf2.get(), in2.size(), off, true) != ls::ErrorCode::Success) { fail("error on finished input"); }
                    got.push_back(observe(b.p->get_log_parser().get_log_event_view(), names[b.schema]));
                    if (got.size() > in2.size() + 2) { fail("parser does not finish"); }
                }
                drop_empty_tail(got);
                verify(b.schema, in2, got, true, "buffer parser after running out of data");
                b.dirty = false;
            }
        }
    }
}
