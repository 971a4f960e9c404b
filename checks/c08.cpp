// C08: deep copies of events equal their source and are independent of everything that happens later.
#include "scenario.hpp"
using namespace sut;
pbt::PropInfo const pbt::g_info{
        "C08",
        "case = one random schema x 1-12 inputs parsed through reader or buffer parsers; every non-empty event is deep copied "
        "(deep_copy(), LogEvent constructor, vector emplace), some copies are copied again, moved inside growing containers or returned "
        "by value; then the parser continues, is reset, parses other data, the source buffer is overwritten and freed, and every copy is "
        "observed again (text, log type, timestamp, multi-line flag, tokens, variables per type). AddressSanitizer in part of the runs. "
        "Non-trivial: at least two copies with a variable survived later parser activity.",
        40,
        2048
};
void pbt::prop(Choices& c, Ctx& ctx) {
    model::SchemaOpt so;
    so.max_vars = 5;
    so.many_rules = true;
    auto s = model::gen_schema(c, so);
    auto text = s.text();
    if (ctx.want_desc) { ctx.desc = "schema: " + show(text, 600); }
    auto names = var_names(s);
    // building a parser costs more than several inputs: most cases use one front end
    size_t front = c.weighted({2, 3, 3});
    std::unique_ptr<ls::ReaderParser> rp;
    std::unique_ptr<ls::BufferParser> bp;
    if (front != 2) { rp = std::make_unique<ls::ReaderParser>(make_ast(text)); }
    if (front != 1) { bp = std::make_unique<ls::BufferParser>(make_ast(text)); }
    struct Copy {
        std::unique_ptr<ls::LogEvent> one;
        size_t in_vec{SIZE_MAX};
        Event src;
    };
    std::vector<Copy> copies;
    std::vector<ls::LogEvent> vec;
    model::Parser mp(s);
    size_t vars = 0;
    auto take = [&](ls::LogEventView const& v) {
        // the source is read before or after it is copied, the copy at once or only later
        auto const& ob = *v.get_log_output_buffer();
        bool empty = true;
        for (uint32_t i = ob.has_timestamp() ? 0 : 1; i < ob.pos(); ++i) { empty &= ob.get_token(i).get_length() == 0; }
        if (empty || copies.size() > 400) { return; }
        Copy x;
        bool before = c.chance(1, 2);
        if (before) { x.src = observe(v, names); }
        switch (c.draw(5)) {
            case 0: x.one = std::make_unique<ls::LogEvent>(v); break;
            case 1: x.one = std::make_unique<ls::LogEvent>(v.deep_copy()); break;
            case 2: {
                ls::LogEvent t = v.deep_copy();
                x.one = std::make_unique<ls::LogEvent>(t.deep_copy());  // copy of a copy, the first one dies
                break;
            }
            case 3: vec.emplace_back(v); x.in_vec = vec.size() - 1; break;
            default: vec.push_back(v.deep_copy()); x.in_vec = vec.size() - 1;
        }
        if (!before) { x.src = observe(v, names); }
        if (x.src.text.empty()) { fail("an event with tokens has no text"); }
        for (auto const& [k, l] : x.src.vars) { vars += !l.empty(); }
        copies.push_back(std::move(x));
        if (c.chance(1, 3)) { return; }
        auto& y = copies.back();
        auto& le = y.one ? *y.one : vec[y.in_vec];
        auto o = observe(le, names);
        auto d = diff(y.src, o, All);
        if (!d.empty()) { fail("copy differs from its source in its " + d + "\n  source " + show(y.src) + "\n  copy   " + show(o)); }
    };
    auto recheck = [&](std::string const& when) {
        for (size_t i = 0; i < copies.size(); ++i) {
            auto& y = copies[i];
            auto o = observe(y.one ? *y.one : vec[y.in_vec], names);
            auto d = diff(y.src, o, All);
            if (!d.empty()) {
                fail("copy " + std::to_string(i) + " changed in its " + d + " " + when + "\n  source " + show(y.src) + "\n  copy   " + show(o));
            }
        }
    };
    size_t n = gen_input_count(c, 4, 12);
    Desc desc{ctx};
    for (size_t i = 0; i < n; ++i) {
        model::LogOpt lo;
        lo.ts_bias = c.chance(1, 2);
        auto in = model::gen_log(c, s, lo);
        if (s.rules.size() < 100 && c.chance(1, cBuf > 4096 ? 20 : 4)) { in = gen_boundary_log(c, s, lo, 3 * cBuf); }
        desc.input(in);
        size_t at = copies.size();
        if (front == 1 || (front == 0 && c.chance(1, 2))) {
            Feed f;
            f.data = &in;
            f.chunk = gen_chunks(c).fn();
            auto rd = f.reader();
            rp->reset_and_set_reader(rd);
            size_t k = 0;
            while (!rp->done()) {
                if (rp->parse_next_event() != ls::ErrorCode::Success) { fail("parse error"); }
                take(rp->get_log_parser().get_log_event_view());
                if (++k > in.size() + 2) { fail("parser does not finish"); }
            }
            recheck("after the parser continued");
        } else {
            std::unique_ptr<char[]> buf(new char[in.size()]);
            std::memcpy(buf.get(), in.data(), in.size());
            bp->reset();
            size_t off = 0, k = 0;
            while (!bp->done()) {
                if (bp->parse_next_event(buf.get(), in.size(), off, true) != ls::ErrorCode::Success) { fail("parse error"); }
                take(bp->get_log_parser().get_log_event_view());
                if (++k > in.size() + 2) { fail("parser does not finish"); }
            }
            std::memset(buf.get(), '#', in.size());
            recheck("after the source buffer was overwritten");
            buf.reset();
            bp->reset();
            recheck("after the source buffer was freed and the parser reset");
        }
        // events of the copies equal those of the model
        if (copies.size() < 400) {
            auto want = run_model(mp, in, names);
            std::vector<Event> got;
            for (size_t q = at; q < copies.size(); ++q) { got.push_back(copies[q].src); }
            compare(want, got, All, "source events");
        }
        // containers reallocate and events move
        if (c.chance(1, 2)) {
            std::vector<ls::LogEvent> v2;
            for (auto& e : vec) { v2.push_back(std::move(e)); }
            vec.swap(v2);
        }
        if (c.chance(1, 3) && !copies.empty()) {
            auto& y = copies[c.draw(copies.size())];
            if (y.one) {
                auto again = std::make_unique<ls::LogEvent>(y.one->deep_copy());
                y.one = std::move(again);
            }
        }
    }
    recheck("after later parser activity");
    if (copies.size() >= 2 && vars >= 1) { ctx.nontrivial(hash_str(ctx.desc.empty() ? text + copies[0].src.text + copies.back().src.text : ctx.desc)); }
    ctx.labels["copies"] += copies.size();
}
