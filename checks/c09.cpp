// C09: a schema's automaton accepts exactly the documented language of its patterns.
// Oracle: two independent reference matchers over the generated pattern tree.
#include "schemaref.hpp"
#include "sut.hpp"
using namespace sut;

pbt::PropInfo const pbt::g_info{
        "C09",
        "case = one schema of 1-5 random patterns (literals, escapes, cat, or, [..], [^..], ., \\d, \\s, *, +, {N}, {N,M}, "
        "captures, nested), or 1-3 patterns written as random pattern text and read by a reference reader, x 30-60 strings (samples of the languages, mutants of samples, random strings over the pattern "
        "alphabet, short strings exhaustively); each string is run through the compiled DFA and the set of accepted rules is "
        "compared with the reference matchers. Non-trivial: at least one string accepted and one rejected by the reference.",
        30,
        2048
};
namespace {
auto run_dfa(ls::LogParser const& lp, std::string const& s) -> std::vector<std::string> {
    auto const* st = lp.m_lexer.get_dfa()->get_root();
    for (unsigned char ch : s) {
        st = st->next(ch);
        if (nullptr == st) { return {}; }
    }
    if (!st->is_accepting()) { return {}; }
    return type_names(lp, st->get_matching_variable_ids());
}
// random text over the pattern syntax; the reference reader says what it means
auto written(Choices& c, model::Schema& s) -> std::string {
    std::vector<std::string> atoms;
    for (char x : s.alphabet) { atoms.push_back(rx::is_special(static_cast<unsigned char>(x)) ? std::string("\\") + x : std::string(1, x)); }
    std::string excl;
    for (char d : s.delims) { excl += rx::lit_text(static_cast<unsigned char>(d)); }
    auto atom = [&] { return atoms[c.draw(atoms.size())]; };
    std::string text = "delimiters:" + excl + "\n";
    size_t nr = 1 + c.draw(3);
    int caps = 0;
    for (size_t i = 0; i < nr; ++i) {
        text += "r" + std::to_string(c.draw(3)) + ":";
        size_t n = 1 + c.draw(c.chance(1, 4) ? 24 : 9);
        std::string open, cur;
        for (size_t j = 0; j < n; ++j) {
            switch (c.weighted({8, 5, 5, 3, 2, 2, 2, 2, 2, 2, 3, 1, 2})) {
                case 0: cur += atom(); break;
                case 1: cur += "|" + atom(); break;
                case 2: cur += "("; open += ')'; break;
                case 3: if (!open.empty()) { cur += open.back(); open.pop_back(); } break;
                case 4: cur += "*"; break;
                case 5: cur += "+"; break;
                case 6: cur += "{" + std::to_string(c.draw(4)) + "}"; break;
                case 7: { auto lo = c.draw(3); cur += "{" + std::to_string(lo) + "," + std::to_string(lo + c.draw(3)) + "}"; break; }
                case 8: cur += "\\d"; break;
                case 9: cur += "."; break;
                case 10: {
                    cur += "[";
                    if (c.chance(1, 3)) { cur += "^" + excl; }
                    size_t k = 1 + c.draw(3);
                    for (size_t m = 0; m < k; ++m) {
                        switch (c.draw(4)) {
                            case 0: cur += "0-" + std::to_string(c.draw(10)); break;
                            case 1: cur += std::string("a-") + static_cast<char>('a' + c.draw(26)); break;
                            case 2: cur += "\\d"; break;
                            default: cur += atom(); break;
                        }
                    }
                    cur += "]";
                    break;
                }
                case 11: cur += "(?<g" + std::to_string(caps++) + ">"; open += ')'; break;
                default: cur += "|("; open += ')'; break;
            }
        }
        while (!open.empty()) { cur += (c.chance(1, 3) ? atom() : "") + open.back(); open.pop_back(); }
        text += cur + "\n";
    }
    auto ref = schemaref::read(text);
    if (!ref.parse_ok() || ref.odd_rep || ref.delims.size() != 1 || ref.delims[0] != s.delims) { return {}; }
    for (auto const& v : ref.vars) {
        auto p = schemaref::possible(*v.pat, s.delims);
        for (char d : s.delims) { if (p[static_cast<unsigned char>(d)]) { s.rules.clear(); return {}; } }
        s.rules.push_back({v.name, schemaref::bind(v.pat, s.delims), false});
    }
    if (!schemaref::small_dfa(ref, s.delims)) { s.rules.clear(); return {}; }
    text.pop_back();
    return text;
}
}  // namespace
void pbt::prop(Choices& c, Ctx& ctx) {
    model::Schema s;
    s.delims = model::gen_delims(c);
    static std::string const apool = "abcdxyzAB01279-_.@+#/=~`$&'<>?{}|^*()[]\\";
    size_t na = 2 + c.draw(4);
    for (size_t i = 0; i < 40 && s.alphabet.size() < na; ++i) {
        char x = i == 0 ? 'a' : i == 1 ? 'b' : apool[c.draw(apool.size())];
        if (s.delims.find(x) == std::string::npos && s.alphabet.find(x) == std::string::npos) { s.alphabet += x; }
    }
    int caps = 0;
    rx::GenOpt g;
    g.alphabet = s.alphabet;
    g.delims = s.delims;
    g.captures = c.chance(1, 3);
    g.cap_counter = &caps;
    g.rep00 = c.chance(1, 4);
    g.max_weight = 30;
    std::string own;
    if (c.chance(1, 5)) {
        for (int i = 0; i < 6 && own.empty(); ++i) { own = written(c, s); }
        if (!own.empty()) { ctx.label("patterns written as text"); }
    }
    size_t nr = own.empty() ? 1 + c.weighted({6, 3, 2, 1, 1}) : 0;
    for (size_t i = 0; i < nr; ++i) {
        // a timestamp pattern may contain anything; it is compiled with its start marker in front
        bool ts = c.chance(1, 6);
        auto go = g;
        if (ts) {
            go.alphabet += s.delims;
            go.space = true;
            go.dot = false;
            go.delims = s.delims;
        }
        auto p = rx::gen_pattern(c, go, 1 + static_cast<int>(c.draw(4)));
        if (c.chance(1, 12)) {
            // counts of several digits
            int lo = static_cast<int>(c.chance(1, 2) ? 9 + c.draw(4) : 95 + c.draw(40));
            if (c.chance(1, 6)) { lo = 250 + static_cast<int>(c.draw(20)); }
            if (c.chance(1, 20)) { lo = 1000 + static_cast<int>(c.draw(30)); }
            bool exact = c.chance(1, 2);
            p = rx::mk_rep(rx::gen_leaf(c, go), lo, exact ? lo : lo + static_cast<int>(c.draw(14)), exact);
            if (c.chance(1, 2)) { p = rx::mk2(rx::K::Cat, p, rx::gen_leaf(c, go)); }
        }
        s.rules.push_back({ts ? "timestamp" : "r" + std::to_string(i), p, ts});
    }
    if (own.empty() && c.chance(1, 250)) {
        // more rules than fit in eight bits, in front of, between or after the others
        size_t many = 250 + c.draw(60), at = c.draw(s.rules.size() + 1);
        std::vector<model::Rule> extra;
        for (size_t i = 0; i < many; ++i) {
            rx::P p = rx::mk_lit('m');
            for (char d : std::to_string(i)) { p = rx::mk2(rx::K::Cat, p, rx::mk_lit(static_cast<unsigned char>(d))); }
            if (c.chance(1, 20)) { p = rx::mk2(rx::K::Cat, p, rx::gen_leaf(c, g)); }
            extra.push_back({"m" + std::to_string(i), p, false});
        }
        s.rules.insert(s.rules.begin() + static_cast<std::ptrdiff_t>(at), extra.begin(), extra.end());
        ctx.label("more than 250 rules");
    }
    bool dl = c.chance(1, 8);
    auto text = own.empty() ? s.text(dl) : own;
    if (ctx.want_desc) { ctx.desc = "schema: " + show(text, 600); }
    ls::LogParser lp(make_ast(text));
    std::vector<rx::Nfa> nfa;
    for (auto const& r : s.rules) { nfa.emplace_back(*r.pat); }
    size_t acc = 0, rej = 0;
    auto test = [&](std::string const& body) {
        for (int pre = 0; pre < 3; ++pre) {
            // variables: any delimiter in front; timestamps: start-of-input mark or newline in front
            std::string lead = pre == 0 ? std::string(1, s.delims.back()) : pre == 1 ? std::string(1, '\n') : std::string(1, '\xFD');
            if (pre == 0 && lead == "\n") { continue; }
            std::vector<std::string> want;
            for (size_t i = 0; i < s.rules.size(); ++i) {
                auto const& r = s.rules[i];
                if (r.ts && pre == 0) { continue; }
                // '\s' and newline: documentation and code disagree, not decided here
                bool m = nfa[i].match(body);
                if (body.size() <= 12) {
                    rx::Ends e(*r.pat, body);
                    if (e.full() != m) { throw std::runtime_error("reference matchers disagree"); }
                }
                if (m) {
                    auto n = r.ts ? std::string("#ts") : r.name;
                    if (std::find(want.begin(), want.end(), n) == want.end()) { want.push_back(n); }
                }
            }
            if (pre == 1 && body.empty()) { want.insert(want.begin(), "newLine"); }
            auto got = run_dfa(lp, lead + body);
            (want.empty() ? rej : acc)++;
            auto sw = want, sg = got;
            std::sort(sw.begin(), sw.end());
            std::sort(sg.begin(), sg.end());
            if (sw != sg) {
                fail("string \"" + show(body) + "\" (after \"" + show(lead) + "\"): rules whose pattern matches: {" + join(sw)
                     + "}, automaton reports {" + join(sg) + "}");
            }
        }
    };
    bool any_space = false;
    for (auto const& r : s.rules) { any_space |= rx::has_kind(*r.pat, rx::K::Space); }
    std::string pool = s.alphabet + "0" + std::string("\x80\xff", 2);
    for (char d : s.delims) { if (d != '\n' || !any_space) { pool += d; } }
    std::vector<std::string> strs{""};
    for (char a : pool) { strs.push_back(std::string(1, a)); }
    std::string two = s.alphabet.substr(0, 3);
    for (char a : two) { for (char b : two) { strs.push_back({a, b}); } }
    size_t n = 10 + c.draw(30);
    for (size_t i = 0; i < n; ++i) {
        auto const& r = s.rules[c.draw(s.rules.size())];
        std::string x;
        switch (c.weighted({4, 4, 2, 1})) {
            case 0: x = rx::sample(*r.pat, c, s.alphabet, 1200); break;
            case 1: x = model::mutate(c, rx::sample(*r.pat, c, s.alphabet, 1200), pool); break;
            case 2: { size_t k = c.draw(8); for (size_t j = 0; j < k; ++j) { x += pool[c.draw(pool.size())]; } break; }
            default: {
                auto const& q = s.rules[c.draw(s.rules.size())];
                x = rx::sample(*r.pat, c, s.alphabet, 20) + rx::sample(*q.pat, c, s.alphabet, 20);
            }
        }
        if (any_space) { x.erase(std::remove(x.begin(), x.end(), '\n'), x.end()); }
        strs.push_back(x);
    }
    // every byte at one position of one sample
    {
        auto x = rx::sample(*s.rules[c.draw(s.rules.size())].pat, c, s.alphabet, 40);
        size_t at = x.empty() ? 0 : c.draw(x.size());
        if (x.empty()) { x = "a"; }
        for (int ch = 0; ch < 256; ++ch) {
            if (ch == '\n' && any_space) { continue; }
            x[at] = static_cast<char>(ch);
            strs.push_back(x);
        }
        if (any_space) { for (auto& y : strs) { y.erase(std::remove(y.begin(), y.end(), '\n'), y.end()); } }
    }
    for (auto const& x : strs) {
        if (x.find('\xFD') == std::string::npos) { test(x); }
    }
    if (acc && rej) { ctx.nontrivial(hash_str(text)); }
    ctx.label("strings compared");
    ctx.labels["strings compared"] += acc + rej - 1;
    ctx.labels["strings accepted"] += acc;
}
