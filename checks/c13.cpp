// C13: the intersection of two automata reports exactly the rules that share a string with the other automaton.
#include "automata.hpp"
using namespace sut;
pbt::PropInfo const pbt::g_info{
        "C13",
        "case = two automata compiled from 1-5 and 1-3 random patterns (loops included, overlapping by construction: shared samples, "
        "generalised or disjoint alphabets; written as text, or built from the tree classes over arbitrary bytes; rule ids arbitrary, sometimes shared by several rules), also automata of whole schemas "
        "(delimiters, timestamps, newline rule) and an automaton with itself; get_intersect must equal the reference: for each rule a search of "
        "the product of independent reference automata for a common string. Non-trivial: the reference set is neither empty nor all "
        "rules, or the automata are cyclic and intersect.",
        30,
        2048
};
namespace {
struct Side {
    std::vector<rx::P> pats;
    std::vector<uint32_t> ids;
    aut::Lexer lexer;
    std::vector<rx::Nfa> nfa;
    bool api{false};  // build the trees through the API of their classes
    void build() {
        std::vector<std::string> texts;
        for (auto const& p : pats) { texts.push_back(rx::print(*p)); }
        std::vector<std::unique_ptr<aut::Ast>> trees;
        if (api) { for (auto const& p : pats) { trees.push_back(aut::build(*p)); } }
        else { trees = aut::asts_of(texts); }
        for (size_t i = 0; i < pats.size(); ++i) {
            lexer.add_rule(ids[i], std::move(trees[i]));
            nfa.emplace_back(*pats[i]);
        }
        lexer.generate();
    }
    auto text() const -> std::string {
        std::string t;
        for (size_t i = 0; i < pats.size(); ++i) { t += (i ? ", " : "") + std::to_string(ids[i]) + "=" + rx::print(*pats[i]); }
        return t;
    }
};
auto common(rx::Nfa& a, rx::Nfa& b) -> bool {
    std::set<std::pair<int, int>> seen{{a.start(), b.start()}};
    std::vector<std::pair<int, int>> todo{{a.start(), b.start()}};
    while (!todo.empty()) {
        auto [x, y] = todo.back();
        todo.pop_back();
        if (a.accepting(x) && b.accepting(y)) { return true; }
        for (int ch = 0; ch < 256; ++ch) {
            int u = a.step(x, static_cast<unsigned char>(ch)), v = b.step(y, static_cast<unsigned char>(ch));
            if (u >= 0 && v >= 0 && seen.emplace(u, v).second) { todo.emplace_back(u, v); }
        }
    }
    return false;
}
auto reference(Side& a, Side& b) -> std::set<uint32_t> {
    std::set<uint32_t> r;
    for (size_t i = 0; i < a.pats.size(); ++i) {
        for (auto& n : b.nfa) { if (common(a.nfa[i], n)) { r.insert(a.ids[i]); } }
    }
    return r;
}
auto str(std::set<uint32_t> const& s) -> std::string {
    std::string t = "{";
    for (auto x : s) { t += (t.size() > 1 ? "," : "") + std::to_string(x); }
    return t + "}";
}
auto cyclic(rx::Node const& n) -> bool { return rx::has_kind(n, rx::K::Star) || rx::has_kind(n, rx::K::Plus); }
// literal pattern for a string
auto word(std::string const& s) -> rx::P {
    rx::P p;
    for (unsigned char ch : s) {
        if (rx::lit_text(ch).empty()) { continue; }
        auto l = rx::mk_lit(ch);
        p = p ? rx::mk2(rx::K::Cat, p, l) : l;
    }
    return p ? p : rx::mk_lit('a');
}
}  // namespace
void pbt::prop(Choices& c, Ctx& ctx) {
    Side a, b;
    static std::string const pool = "abcdefABxyz0189-_. /=";
    std::string alpha;
    size_t na = 2 + c.draw(4);
    for (size_t i = 0; i < na; ++i) { alpha += i < 2 ? pool[i] : pool[c.draw(pool.size())]; }
    int caps = 0;
    rx::GenOpt g;
    g.alphabet = alpha;
    g.captures = c.chance(1, 4);
    g.cap_counter = &caps;
    g.space = true;
    g.max_weight = 16;
    g.dot = c.chance(1, 2);
    g.negate = c.chance(1, 2);
    auto gen = [&] { return rx::gen_pattern(c, g, 1 + static_cast<int>(c.draw(4))); };
    // both sides of a loop modulo game: (aa)* against a(aaa)*
    auto modulo = [&] {
        auto x = rx::mk_lit(static_cast<unsigned char>(alpha[c.draw(2)]));
        bool wide = c.chance(1, 12);
        int k = 1 + static_cast<int>(c.draw(wide ? 60 : 6)), m = static_cast<int>(c.draw(wide ? 70 : 7));
        rx::P p = rx::mk2(c.chance(1, 2) ? rx::K::Star : rx::K::Plus, rx::mk_rep(x, k, k, true), nullptr);
        if (m) { p = rx::mk2(rx::K::Cat, rx::mk_rep(x, m, m, true), p); }
        return p;
    };
    size_t n1 = 1 + c.draw(5), n2 = 1 + c.weighted({5, 2, 1});
    uint32_t base = c.chance(1, 4) ? 1000000 : 0;
    for (size_t i = 0; i < n1; ++i) {
        a.pats.push_back(c.chance(1, 4) ? modulo() : gen());
        a.ids.push_back(c.chance(1, 6) && i ? a.ids[c.draw(i)] : base + static_cast<uint32_t>(c.chance(1, 2) ? i : 10 * (n1 - i)));
    }
    if (c.chance(1, 40)) {
        // many rules that match the same text
        size_t more = 6 + c.draw(60), k = c.draw(n1);
        for (size_t i = 0; i < more; ++i) {
            a.pats.push_back(c.chance(1, 8) ? gen() : a.pats[k]);
            a.ids.push_back(base + 1000 + static_cast<uint32_t>(i));
        }
        n1 += more;
    }
    for (size_t i = 0; i < n2; ++i) {
        rx::P p;
        switch (c.weighted({4, 3, 3, 2})) {
            case 0: p = gen(); break;
            case 1: p = word(rx::sample(*a.pats[c.draw(n1)], c, alpha, 12)); break;
            case 2: p = modulo(); break;
            default: p = word(model::mutate(c, rx::sample(*a.pats[c.draw(n1)], c, alpha, 12), alpha));
        }
        b.pats.push_back(p);
        b.ids.push_back(static_cast<uint32_t>(c.draw(4)));
    }
    if (c.chance(1, 3)) {
        a.api = b.api = true;
        if (c.chance(3, 4)) {
            auto r = aut::gen_renaming(c, alpha);
            for (auto& p : a.pats) { p = aut::rename(p, r); }
            for (auto& p : b.pats) { p = aut::rename(p, r); }
            ctx.label("patterns over arbitrary bytes");
        }
    }
    if (ctx.want_desc) { ctx.desc = "first: " + a.text() + " | second: " + b.text(); }
    a.build();
    b.build();
    auto want = reference(a, b);
    auto got = a.lexer.get_dfa()->get_intersect(b.lexer.get_dfa());
    if (got != want) { fail("rules of the first automaton sharing a string with the second: " + str(want) + ", get_intersect reports " + str(got)); }
    auto want_r = reference(b, a);
    auto got_r = b.lexer.get_dfa()->get_intersect(a.lexer.get_dfa());
    if (got_r != want_r) { fail("swapped: rules sharing a string " + str(want_r) + ", get_intersect reports " + str(got_r)); }
    if (c.chance(1, 4)) {
        std::set<uint32_t> all(a.ids.begin(), a.ids.end());
        auto self = a.lexer.get_dfa()->get_intersect(a.lexer.get_dfa());
        if (self != all) { fail("an automaton intersected with itself reports " + str(self) + " instead of " + str(all)); }
    }
    if (a.lexer.get_dfa()->get_intersect(b.lexer.get_dfa()) != want) { fail("get_intersect is not repeatable"); }
    if (c.chance(1, 6)) {
        // further automata, each destroyed before the next is built
        size_t k = 2 + c.draw(3);
        for (size_t i = 0; i < k; ++i) {
            auto q = std::make_unique<Side>();
            q->api = true;
            q->pats.push_back(c.chance(1, 2) ? gen() : c.chance(1, 2) ? modulo() : b.pats[c.draw(n2)]);
            q->ids.push_back(static_cast<uint32_t>(c.draw(4)));
            q->build();
            auto w = reference(a, *q);
            auto r = a.lexer.get_dfa()->get_intersect(q->lexer.get_dfa());
            if (r != w) { fail("then with " + q->text() + ": rules sharing a string " + str(w) + ", get_intersect reports " + str(r)); }
            auto w2 = reference(*q, a);
            auto r2 = q->lexer.get_dfa()->get_intersect(a.lexer.get_dfa());
            if (r2 != w2) { fail("then swapped with " + q->text() + ": rules sharing a string " + str(w2) + ", get_intersect reports " + str(r2)); }
        }
        ctx.label("one automaton with several others");
    }
    bool cyc = false;
    for (auto const& p : a.pats) { cyc |= cyclic(*p); }
    bool cyc2 = false;
    for (auto const& p : b.pats) { cyc2 |= cyclic(*p); }
    std::set<uint32_t> all(a.ids.begin(), a.ids.end());
    if ((!want.empty() && want != all) || (cyc && cyc2 && !want.empty())) { ctx.nontrivial(hash_str(a.text() + b.text())); }
    ctx.label("pairs");
    if (want.empty()) { ctx.label("disjoint"); }
    if (cyc && cyc2) { ctx.label("both cyclic"); }
    // a schema's automaton: every rule has a delimiter (or start mark / newline) in front
    if (c.chance(1, 5)) {
        model::SchemaOpt so;
        so.max_weight = 12;
        so.nullable = true;
        auto s = model::gen_schema(c, so);
        ls::LogParser lp(make_ast(s.text()));
        Side q;
        char lead = s.delims[c.draw(s.delims.size())];
        rx::P w;
        auto const& r = s.rules[c.draw(s.rules.size())];
        if (c.chance(1, 2)) { w = rx::mk2(rx::K::Cat, rx::mk_lit(static_cast<unsigned char>(lead)), word(rx::sample(*r.pat, c, s.alphabet, 10))); }
        else {
            rx::GenOpt h;
            h.alphabet = s.alphabet;
            h.max_weight = 10;
            w = rx::mk2(rx::K::Cat, rx::mk_lit(static_cast<unsigned char>(lead)), rx::gen_pattern(c, h, 2));
        }
        if (rx::has_kind(*r.pat, rx::K::Space)) { return; }
        q.pats.push_back(w);
        q.ids.push_back(0);
        q.build();
        if (ctx.want_desc) { ctx.desc += " | schema: " + show(s.text()) + " against " + rx::print(*w); }
        rx::Set dset;
        for (char d : s.delims) { dset.set(static_cast<unsigned char>(d)); }
        dset.set(0xFD);
        rx::Set nlset, sof;
        nlset.set('\n');
        sof.set(0xFD);
        std::set<std::string> ws;
        for (auto const& u : s.rules) {
            auto first = rx::mk_leaf(rx::K::Group, u.ts ? (nlset | sof) : dset, "");
            rx::Nfa n(*rx::mk2(rx::K::Cat, first, u.pat));
            if (common(n, q.nfa[0])) { ws.insert(u.ts ? "#ts" : u.name); }
        }
        rx::Nfa nl(*rx::mk_leaf(rx::K::Group, nlset, ""));
        if (common(nl, q.nfa[0])) { ws.insert("newLine"); }
        std::set<std::string> gs;
        for (auto id : lp.m_lexer.get_dfa()->get_intersect(q.lexer.get_dfa())) { for (auto const& n : type_names(lp, {id})) { gs.insert(n); } }
        if (ws != gs) {
            fail("schema types sharing a string with " + rx::print(*w) + ": {" + join({ws.begin(), ws.end()}) + "}, get_intersect reports {" + join({gs.begin(), gs.end()}) + "}");
        }
        ctx.label("schema automata");
    }
}
