// C02: event boundaries, timestamps and the multi-line flag agree with the reference model of docs/schema.md.
#include "modelcheck.hpp"
using namespace sut;
pbt::PropInfo const pbt::g_info{
        "C02",
        "case = one random schema with 0-3 timestamp patterns (with and without delimiters inside, several orders) and 0-4 "
        "variables x 1-60 inputs mixing lines with full, partial and misplaced timestamps, blank lines, variables right after "
        "newlines, missing final newline, lines placed on internal buffer boundaries; each parsed through a random front end "
        "and compared event by event (text, timestamp, multi-line flag) with the reference model. Non-trivial: at least two events, "
        "or an event with a timestamp that contains a newline.",
        40,
        2048
};
void pbt::prop(Choices& c, Ctx& ctx) {
    MCOpt o;
    o.so.max_ts = 3;
    o.so.max_vars = 4;
    o.so.ts_first = c.chance(1, 2);
    o.fields = Text | Ts | Multi;
    o.lo.ts_bias = true;
    o.nontrivial = [](std::vector<Event> const& ev) {
        for (auto const& e : ev) { if (e.has_ts && e.text.find('\n') != std::string::npos) { return true; } }
        return ev.size() >= 2;
    };
    model_check(c, ctx, o);
}
