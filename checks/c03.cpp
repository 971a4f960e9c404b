// C03: tokens, their types and the per-type variable lists agree with the reference model.
#include "modelcheck.hpp"
using namespace sut;
pbt::PropInfo const pbt::g_info{
        "C03",
        "case = one random schema (1-7 rules: overlapping, repeated and generalised patterns, repeated names, capture groups, 0-2 "
        "timestamps, 1-6 delimiters) x 1-60 inputs built from samples, near-misses and prefixes/suffixes of the rules' languages "
        "next to delimiters, line and buffer boundaries; each parsed through a random front end and every token (text, type names "
        "in schema order) and every get_variables list compared with the reference model. Non-trivial: at least one variable "
        "and one static token.",
        40,
        2048
};
void pbt::prop(Choices& c, Ctx& ctx) {
    MCOpt o;
    o.so.captures = c.chance(1, 4);
    o.so.max_vars = 6;
    o.so.min_vars = 1;
    o.so.many_rules = true;
    o.so.ts_first = c.chance(1, 2);
    o.fields = Toks | Vars;
    o.nontrivial = [](std::vector<Event> const& ev) {
        bool v = false, st = false;
        for (auto const& e : ev) {
            for (auto const& [k, l] : e.vars) { v |= !l.empty(); }
            for (auto const& t : e.toks) { st |= t.names[0] == "$UncaughtString"; }
        }
        return v && st;
    };
    model_check(c, ctx, o);
}
