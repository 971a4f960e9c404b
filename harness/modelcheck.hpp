// Shared driver: random schema, several inputs, random front end, comparison of selected fields with the reference model.
#pragma once
#include "scenario.hpp"
namespace sut {
struct MCOpt {
    model::SchemaOpt so;
    model::LogOpt lo;
    unsigned fields{All};
    size_t few{10}, many{60};
    bool boundary{true};
    // returns the hash of a non-trivial observation, 0 if trivial
    std::function<bool(std::vector<Event> const&)> nontrivial;
};
inline void model_check(Choices& c, Ctx& ctx, MCOpt const& o) {
    auto s = model::gen_schema(c, o.so);
    bool dl = c.chance(1, 8);
    auto text = s.text(dl);
    if (ctx.want_desc) { ctx.desc = "schema: " + show(text, 600); }
    if (s.rules.size() > 100) { ctx.label("schemas with hundreds of rules"); }
    auto names = var_names(s);
    model::Parser mp(s);
    Fronts f(text);
    f.choose(c);
    size_t n = gen_input_count(c, o.few, o.many), longs = cBuf > 4096 ? 2 : 8;
    Desc desc{ctx};
    for (size_t i = 0; i < n; ++i) {
        std::string in;
        auto lo = o.lo;
        switch (c.weighted({8, 2, 1, o.boundary && longs > 0 && s.rules.size() < 100 ? (cBuf > 4096 ? 1u : 2u) : 0u})) {
            case 0: in = model::gen_log(c, s, lo); break;
            case 1: {
                size_t len = c.skewed(60);
                std::string pool = s.alphabet + s.delims + s.delims + "\n\n";
                for (size_t k = 0; k < len; ++k) { in += pool[c.draw(pool.size())]; }
                break;
            }
            case 2: lo.max_pieces = 80; in = model::gen_log(c, s, lo); break;
            default: --longs; in = gen_boundary_log(c, s, lo, 4 * cBuf);
        }
        desc.input(in);
        auto want = run_model(mp, in, names);
        std::string what;
        auto got = f.run(c, in, names, what);
        if (ctx.want_desc) { ctx.desc += " via " + what; }
        compare(want, got, o.fields, what);
        if (o.nontrivial(want)) { ctx.nontrivial(hash_str(in)); ctx.label("non-trivial inputs"); }
        ctx.label("inputs");
        if (what[0] == 'b') { ctx.label("through the buffer parser"); }
        if (in.size() > cBuf) { ctx.label("inputs larger than the static buffer"); }
        ctx.labels["events compared"] += want.size();
        for (auto const& e : want) {
            if (e.has_ts) { ctx.label("events with timestamp"); }
            if (e.multiline) { ctx.label("multi-line events"); }
            for (auto const& [k, v] : e.vars) { ctx.labels["variables compared"] += v.size(); }
            for (auto const& t : e.toks) { if (t.names.size() > 1) { ctx.label("ambiguous tokens"); } }
        }
    }
}
}  // namespace sut
