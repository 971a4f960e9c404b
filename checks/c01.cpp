// C01: parsing is lossless. Invariant over the produced events: their texts concatenate to the input, and the tokens of
// each event (timestamp included) concatenate to the event's text.
#include "scenario.hpp"
using namespace sut;
pbt::PropInfo const pbt::g_info{
        "C01",
        "case = one random schema (0-6 rules, nullable patterns, overlapping rules, 0-2 timestamps, 1-6 delimiters) x 1-50 inputs "
        "(schema-guided text, arbitrary bytes including 0x00/0xFD/high bytes, inputs with single tokens / events larger than "
        "the parser's buffers) x a random front end (reader with random read sizes, whole buffer, buffer in pieces). "
        "Non-trivial: input of at least two tokens whose parse contains a variable or spans two or more events.",
        40,
        3072
};
namespace {
void check(std::vector<Event> const& ev, std::string const& in, std::string const& what, Ctx& ctx) {
    std::string all;
    size_t toks = 0;
    bool var = false;
    for (auto const& e : ev) {
        all += e.text;
        std::string t;
        for (auto const& k : e.toks) {
            t += k.text;
            if (k.text.empty()) { fail(what + ": empty token in " + show(e)); }
            for (auto const& n : k.names) { var |= n[0] != '$' && n != "newLine"; }
        }
        toks += e.toks.size();
        if (t != e.text) { fail(what + ": the event's tokens do not concatenate to its text: " + show(e)); }
        if (e.text.empty()) { fail(what + ": empty event"); }
        if (e.has_ts && e.text.substr(0, e.ts.size()) != e.ts) { fail(what + ": the event does not begin with its timestamp: " + show(e)); }
    }
    if (all != in) {
        size_t i = 0;
        while (i < all.size() && i < in.size() && all[i] == in[i]) { ++i; }
        fail(what + ": event texts (" + std::to_string(all.size()) + " bytes) differ from the input (" + std::to_string(in.size())
             + " bytes) at position " + std::to_string(i) + ": \"" + show(all.substr(i, 60)) + "\" instead of \""
             + show(in.substr(i, 60)) + "\"");
    }
    if (toks >= 2 && (var || ev.size() > 1)) { ctx.nontrivial(hash_str(in)); }
}
}  // namespace
void pbt::prop(Choices& c, Ctx& ctx) {
    model::SchemaOpt so;
    so.nullable = c.chance(1, 3);
    so.captures = c.chance(1, 4);
    so.ts_first = c.chance(1, 2);
    auto s = model::gen_schema(c, so);
    if (c.chance(1, 40)) { s.rules.clear(); }
    auto text = s.text(c.chance(1, 8));
    if (ctx.want_desc) { ctx.desc = "schema: " + show(text, 600); }
    auto names = var_names(s);
    Fronts f(text);
    f.choose(c);
    size_t n = gen_input_count(c, 10, 50), longs = cBuf > 4096 ? 3 : 10;
    Desc desc{ctx};
    for (size_t i = 0; i < n; ++i) {
        std::string in;
        model::LogOpt lo;
        lo.byte_fd = true;
        unsigned w = longs == 0 ? 0u : cBuf > 4096 ? 1u : 2u;
        size_t kind = c.weighted({8, 3, w, w});
        longs -= kind >= 2;
        switch (kind) {
            case 0:
                lo.max_pieces = c.chance(1, 6) ? 60 : 14;
                in = model::gen_log(c, s, lo);
                break;
            case 1: {  // arbitrary bytes over a small or full alphabet
                size_t len = c.skewed(80);
                std::string pool = s.alphabet + s.delims + s.delims + std::string("\0\xFD\x80\xFF", 4);
                bool full = c.chance(1, 4);
                for (size_t k = 0; k < len; ++k) { in += full ? static_cast<char>(c.draw(256)) : pool[c.draw(pool.size())]; }
                break;
            }
            case 2: in = gen_boundary_log(c, s, lo, 8 * cBuf); break;
            default: {  // pieces separated by very long runs
                size_t k = 1 + c.draw(4);
                size_t huge = cBuf > 4096 && c.chance(1, 60) ? 1 : 0;  // megabytes
                for (size_t j = 0; j < k; ++j) {
                    in += model::gen_log(c, s, lo);
                    std::string unit;
                    switch (c.draw(4)) {
                        case 0: unit = s.alphabet.substr(0, 1); break;
                        case 1: unit = s.alphabet.substr(1, 1) + (s.delims.size() > 1 ? s.delims.substr(1, 1) : "\n"); break;
                        case 2: unit = "\n"; break;
                        default: unit = s.rules.empty() ? "q" : rx::sample(*s.rules[c.draw(s.rules.size())].pat, c, s.alphabet, 30) + s.delims.back();
                    }
                    if (unit.empty()) { unit = "z"; }
                    size_t len = huge && j == 0 ? c.draw(2'500'000) : c.draw(cBuf * (cBuf > 4096 ? 2 : 6));
                    std::string run;
                    while (run.size() < len) { run += unit; }
                    in += run;
                }
            }
        }
        desc.input(in);
        std::string what;
        auto ev = f.run(c, in, names, what);
        if (ctx.want_desc) { ctx.desc += " via " + what; }
        check(ev, in, what, ctx);
        ctx.label("inputs");
        if (in.size() > cBuf) { ctx.label("inputs larger than the static buffer"); }
        if (what[0] == 'b') { ctx.label("through the buffer parser"); }
        ctx.labels["events"] += ev.size();
    }
}
