// C06: parsing a caller-owned buffer in pieces gives the events of parsing at once; offsets and bounds are exact.
#include "scenario.hpp"
using namespace sut;
pbt::PropInfo const pbt::g_info{
        "C06",
        "case = one random schema x 1-40 inputs x 2-5 refill schedules of the documented buffer protocol (first piece, pieces appended, "
        "zero-byte refills, tail moved to the front or kept in place, reset after events, input declared finished with the last piece or "
        "one call later); every call's buffer is a fresh exactly-sized heap block (AddressSanitizer in part of the runs). Compared "
        "with the reference model (every field) and with the whole-buffer parse; the returned offset must be the start of the first "
        "event not yet returned after every call. Non-trivial: at least one refill happened in the middle of the input and two or "
        "more events or a variable were produced.",
        40,
        2048
};
void pbt::prop(Choices& c, Ctx& ctx) {
    model::SchemaOpt so;
    so.max_vars = 4;
    so.captures = c.chance(1, 8);
    auto s = model::gen_schema(c, so);
    if (c.chance(1, 30)) { s.rules.clear(); }
    auto text = s.text();
    if (ctx.want_desc) { ctx.desc = "schema: " + show(text, 600); }
    auto names = var_names(s);
    model::Parser mp(s);
    auto p = std::make_unique<ls::BufferParser>(make_ast(text));
    for (auto const& nm : names) {
        auto id = p->get_variable_id(nm);
        if (!id || p->get_log_parser().get_id_symbol(*id) != nm) { fail("get_variable_id(" + nm + ") and get_id_symbol disagree"); }
    }
    size_t n = gen_input_count(c, 8, 40);
    Desc desc{ctx};
    for (size_t i = 0; i < n; ++i) {
        std::string in;
        model::LogOpt lo;
        lo.ts_bias = c.chance(1, 2);
        if (c.chance(1, 12)) { lo.max_pieces = 60; }
        in = model::gen_log(c, s, lo);
        if (c.chance(1, 40)) { in = gen_boundary_log(c, s, lo, 3 * cBuf); }
        desc.input(in);
        auto want = run_model(mp, in, names);
        bool content = want.size() >= 2;
        for (auto const& e : want) { for (auto const& [k, v] : e.vars) { content |= !v.empty(); } }
        size_t ns = 2 + c.draw(4);
        compare(want, run_buffer_whole(*p, in, names), All, "whole buffer");
        for (size_t j = 0; j < ns; ++j) {
            auto sp = gen_split(c, in.size());
            if (ctx.want_desc) { ctx.desc += " " + sp.name + ";"; }
            SplitStats st;
            if (c.chance(1, 40)) { p = std::make_unique<ls::BufferParser>(make_ast(text)); }
            auto got = run_buffer_split(*p, in, names, sp, &st);
            compare(want, got, All, sp.name);
            ctx.label("schedules");
            ctx.labels["refills"] += st.refills;
            if (st.refills > 1 && content) { ctx.nontrivial(hash_str(in + sp.name)); }
        }
        ctx.label("inputs");
    }
}
