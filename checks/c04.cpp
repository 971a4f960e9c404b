// C04: the log type agrees with the reference model, and depends on variable values only through their types.
#include "modelcheck.hpp"
using namespace sut;
pbt::PropInfo const pbt::g_info{
        "C04",
        "case = one random schema x 1-60 inputs (variables at the very start of the input and of lines, adjacent delimiters, "
        "multi-line events, static text that looks like a log type), through a random front end; (a) every log type is compared with "
        "the reference model's, (b) the values of the variables of one input are replaced by other values with the same types and "
        "the log types compared with each other. Non-trivial: some log type contains a variable and static text.",
        40,
        2048
};
namespace {
void metamorphic(Choices& c, Ctx& ctx) {
    // variables with disjoint first characters, so that a value's type cannot change with its neighbours
    model::Schema s;
    s.delims = model::gen_delims(c);
    std::string const firsts = "abcdef";
    s.alphabet = "abcdef019";
    size_t nr = 1 + c.draw(5);
    bool ts = c.chance(1, 2);
    if (ts) {
        auto d4 = rx::mk_rep(rx::mk_digit(), 4, 4, true);
        s.rules.push_back({"timestamp", d4, true});
    }
    for (size_t i = 0; i < nr; ++i) {
        auto d = rx::mk2(rx::K::Plus, rx::mk_digit(), nullptr);
        s.rules.push_back({"w" + std::to_string(i), rx::mk2(rx::K::Cat, rx::mk_lit(static_cast<unsigned char>(firsts[i])), d), false});
    }
    auto names = var_names(s);
    auto text = s.text();
    std::string a, b;
    size_t n = 1 + c.draw(20);
    auto val = [&](size_t v, bool second) {
        std::string x(1, firsts[v]);
        size_t k = 1 + c.draw(second ? 9 : 4);
        for (size_t i = 0; i < k; ++i) { x += static_cast<char>('0' + c.draw(10)); }
        return x;
    };
    for (size_t i = 0; i < n; ++i) {
        if (ts && (a.empty() || a.back() == '\n') && c.chance(1, 2)) { a += "2024"; b += "1999"; }
        else if (c.chance(1, 2)) {
            size_t v = c.draw(nr);
            a += val(v, false);
            b += val(v, true);
        } else {
            std::string st = c.chance(1, 2) ? "zz" : "<w0>";
            if (st.find_first_of(s.delims) == std::string::npos) { a += st; b += st; }
        }
        char d = s.delims[c.draw(s.delims.size())];
        a += d;
        b += d;
    }
    if (ctx.want_desc) { ctx.desc = "schema: " + show(text) + " | inputs \"" + show(a) + "\" and \"" + show(b) + "\""; }
    Fronts f(text);
    std::string wa, wb;
    auto ea = f.run(c, a, names, wa);
    auto eb = f.run(c, b, names, wb);
    if (ea.size() != eb.size()) { fail("replacing variable values changed the number of events"); }
    bool nt = false;
    for (size_t i = 0; i < ea.size(); ++i) {
        if (ea[i].logtype != eb[i].logtype) {
            fail("events that differ only in variable values have different log types: " + show(ea[i]) + " and " + show(eb[i]));
        }
        nt |= ea[i].logtype.find("<w") != std::string::npos && ea[i].text != eb[i].text;
    }
    if (nt) { ctx.nontrivial(hash_str(a + b)); }
    ctx.label("value replacement cases");
}
}  // namespace
void pbt::prop(Choices& c, Ctx& ctx) {
    if (c.chance(1, 5)) { metamorphic(c, ctx); return; }
    MCOpt o;
    o.so.captures = c.chance(1, 6);
    o.so.max_vars = 5;
    o.so.many_rules = true;
    o.so.ts_first = c.chance(1, 2);
    o.fields = Logtype;
    o.nontrivial = [](std::vector<Event> const& ev) {
        for (auto const& e : ev) {
            auto p = e.logtype.find('<');
            if (p != std::string::npos && e.logtype.find_first_not_of("<>newLi", 0) != std::string::npos && !e.vars.empty()) {
                for (auto const& [k, l] : e.vars) { if (!l.empty()) { return true; } }
            }
        }
        return false;
    };
    model_check(c, ctx, o);
}
