// C18: a lexer without delimiters splits its input into leftmost-longest tokens, however the input arrives.
// Oracle: reference matchers over the generated pattern trees and a direct longest-match tokenizer.
#include <optional>

#include "automata.hpp"
using namespace sut;

pbt::PropInfo const pbt::g_info{
        "C18",
        "case = 1-6 random non-nullable lexical rules with distinct ids (written as text, or built from the tree classes over arbitrary bytes) x 4-10 inputs (concatenated samples, mutants, texts with "
        "an unmatchable tail, long repetitions), each scanned token by token as a whole buffer, as a buffer handed over in random "
        "pieces, and through the parser input buffer from a reader (random read sizes, growth, wrap), with resets of a half-used "
        "lexer in between; tokens (text, matching rule ids in rule order) are compared with a reference longest-match tokenizer. "
        "Non-trivial: an input with at least 3 tokens, one of them chosen over a shorter match.",
        40,
        2048
};
namespace {
struct Tk {
    std::string text;
    std::vector<uint32_t> ids;
    auto operator==(Tk const&) const -> bool = default;
};
auto show(Tk const& t) -> std::string {
    std::string o = "\"" + pbt::show(t.text, 60) + "\":{";
    for (auto i : t.ids) { o += std::to_string(i) + ","; }
    return o + "}";
}
auto show(std::vector<Tk> const& v) -> std::string {
    std::string o;
    for (size_t i = 0; i < v.size() && i < 30; ++i) { o += show(v[i]) + " "; }
    return o;
}
struct Rules {
    std::vector<rx::P> pats;
    std::vector<uint32_t> ids;
    std::vector<rx::Nfa> nfa;
};
// want.back() is the end token
auto reference(Rules& r, std::string const& s, bool& backed_off) -> std::vector<Tk> {
    std::vector<Tk> out;
    size_t p = 0;
    while (p < s.size()) {
        size_t best = 0, shorter = 0;
        std::vector<uint32_t> best_ids;
        std::vector<int> st;
        for (auto& n : r.nfa) { st.push_back(n.start()); }
        for (size_t q = p; q < s.size(); ++q) {
            bool alive = false;
            std::vector<uint32_t> ids;
            for (size_t i = 0; i < st.size(); ++i) {
                st[i] = r.nfa[i].step(st[i], static_cast<unsigned char>(s[q]));
                alive |= st[i] >= 0;
                if (r.nfa[i].accepting(st[i])) { ids.push_back(r.ids[i]); }
            }
            if (!ids.empty()) {
                shorter += best != 0;
                best = q + 1;
                best_ids = ids;
            }
            if (!alive) { break; }
        }
        if (best == 0) {
            out.push_back({s.substr(p), {static_cast<uint32_t>(ls::SymbolId::TokenUncaughtString)}});
            break;
        }
        backed_off |= shorter > 0;
        out.push_back({s.substr(p, best - p), best_ids});
        p = best;
    }
    out.push_back({"", {static_cast<uint32_t>(ls::SymbolId::TokenEnd)}});
    return out;
}
auto tk(ls::Token& t) -> Tk {
    Tk k{std::string(t.to_string_view()), *t.m_type_ids_ptr};
    if (t.to_string() != k.text || t.get_length() != k.text.size()) { pbt::fail("Token accessors disagree for " + show(k)); }
    return k;
}
auto is_end(Tk const& k) -> bool { return k.ids.size() == 1 && k.ids[0] == static_cast<uint32_t>(ls::SymbolId::TokenEnd); }
constexpr size_t cNoLimit = static_cast<size_t>(-1);
// stops after `limit` tokens
auto scan_whole(aut::Lexer& lx, std::string s, size_t limit) -> std::vector<Tk> {
    ls::ParserInputBuffer ib;
    lx.reset();
    std::vector<char> buf(s.begin(), s.end());
    buf.shrink_to_fit();
    ib.set_storage(buf.data(), static_cast<uint32_t>(buf.size()), 0, true);
    std::vector<Tk> out;
    while (out.size() < limit && out.size() <= s.size() + 2) {
        ls::Token t;
        auto e = lx.scan(ib, t);
        if (e != ls::ErrorCode::Success) { pbt::fail("scan of a complete buffer returns error " + std::to_string(static_cast<int>(e))); }
        out.push_back(tk(t));
        if (is_end(out.back())) { break; }
    }
    return out;
}
auto scan_pieces(aut::Lexer& lx, std::string const& s, std::vector<size_t> const& cuts, size_t limit) -> std::vector<Tk> {
    ls::ParserInputBuffer ib;
    lx.reset();
    std::vector<Tk> out;
    uint32_t pos = 0;
    std::vector<char> buf;
    for (size_t i = 0; i <= cuts.size(); ++i) {
        size_t end = i < cuts.size() ? cuts[i] : s.size();
        bool fin = i == cuts.size();
        // a new array each time: nothing may refer to the old one
        std::vector<char> nb(s.begin(), s.begin() + static_cast<long>(end));
        std::fill(buf.begin(), buf.end(), '\x01');
        buf = std::move(nb);
        buf.shrink_to_fit();
        ib.set_storage(buf.data(), static_cast<uint32_t>(end), pos, fin);
        while (out.size() < limit && out.size() <= s.size() + 2) {
            ls::Token t;
            auto e = lx.scan(ib, t);
            pos = ib.storage().pos();
            if (e == ls::ErrorCode::BufferOutOfBounds && !fin) { break; }
            if (e != ls::ErrorCode::Success) { pbt::fail("scan in pieces returns error " + std::to_string(static_cast<int>(e))); }
            out.push_back(tk(t));
            if (is_end(out.back())) { return out; }
        }
        if (out.size() >= limit) { break; }
    }
    return out;
}
auto scan_reader(aut::Lexer& lx, std::string const& s, std::vector<size_t> const& sizes, size_t limit) -> std::vector<Tk> {
    ls::ParserInputBuffer ib;
    ib.reset();
    lx.reset();
    size_t pos = 0, k = 0;
    ls::Reader rd{[&](char* dst, size_t n, size_t& got) -> ls::ErrorCode {
        got = std::min({n, s.size() - pos, sizes[k++ % sizes.size()]});
        std::memcpy(dst, s.data() + pos, got);
        pos += got;
        return got == 0 ? ls::ErrorCode::EndOfFile : ls::ErrorCode::Success;
    }};
    auto read = [&] {
        auto e = ib.read_if_safe(rd);
        if (e != ls::ErrorCode::Success && e != ls::ErrorCode::EndOfFile) { pbt::fail("read_if_safe returns an error"); }
    };
    std::vector<Tk> out;
    while (out.size() < limit && out.size() <= s.size() + 2) {
        read();
        ls::Token t;
        auto e = lx.scan(ib, t);
        for (int i = 0; e == ls::ErrorCode::BufferOutOfBounds; ++i) {
            if (i > 40) { pbt::fail("the buffer grows without an end"); }
            lx.increase_buffer_capacity(ib);
            read();
            e = lx.scan(ib, t);
        }
        if (e != ls::ErrorCode::Success) { pbt::fail("scan from a reader returns error " + std::to_string(static_cast<int>(e))); }
        out.push_back(tk(t));
        ib.set_consumed_pos(t.m_end_pos == 0 ? ib.storage().size() - 1 : t.m_end_pos - 1);
        if (is_end(out.back())) { break; }
    }
    return out;
}
}  // namespace
void pbt::prop(Choices& c, Ctx& ctx) {
    rx::GenOpt g;
    static std::string const pool = "abcdxyz01279-_ ,:\n.@";
    size_t na = 2 + c.draw(4);
    for (size_t i = 0; i < 40 && g.alphabet.size() < na; ++i) {
        char x = i == 0 ? 'a' : i == 1 ? 'b' : pool[c.draw(pool.size())];
        if (g.alphabet.find(x) == std::string::npos) { g.alphabet += x; }
    }
    g.max_weight = 24;
    g.dot = c.chance(1, 4);
    int caps = 0;
    g.captures = c.chance(1, 4);
    g.cap_counter = &caps;
    Rules r;
    bool api = c.chance(1, 4);
    std::optional<std::array<uint8_t, 256>> ren;
    if (api) { ren = aut::gen_renaming(c, g.alphabet); }
    size_t nr = 1 + c.weighted({2, 3, 3, 2, 1, 1});
    size_t same = c.chance(1, 40) ? 6 + c.draw(30) : 0;  // many rules that match the same text
    nr += same;
    std::vector<std::string> texts;
    for (size_t i = 0; i < nr; ++i) {
        rx::P p;
        if (i > 0 && same > 0 && c.chance(7, 8)) {
            p = r.pats[0];
        } else if (i > 0 && c.chance(1, 5)) {
            // a longer or shorter relative of an earlier rule
            auto q = r.pats[c.draw(i)];
            p = c.chance(1, 2) ? q : rx::mk2(rx::K::Cat, q, rx::gen_leaf(c, g));
        } else {
            p = rx::non_nullable(c, g, rx::gen_pattern(c, g, static_cast<int>(c.draw(4))));
        }
        r.pats.push_back(p);
        uint32_t id = 10 + static_cast<uint32_t>(c.chance(1, 6) ? c.draw(1ULL << 32) % 4'000'000'000U : c.draw(200));
        while (std::find(r.ids.begin(), r.ids.end(), id) != r.ids.end()) { ++id; }
        r.ids.push_back(id);
    }
    if (ren) {
        for (auto& p : r.pats) { p = aut::rename(p, *ren); }
        g.alphabet = aut::rename(g.alphabet, *ren);
        ctx.label("rules over arbitrary bytes");
    }
    for (auto const& p : r.pats) {
        r.nfa.emplace_back(*p);
        texts.push_back(rx::print(*p));
    }
    std::string rules_text;
    for (size_t i = 0; i < nr; ++i) { rules_text += std::to_string(r.ids[i]) + ":" + texts[i] + "\n"; }
    if (ctx.want_desc) { ctx.desc = "rules (id:pattern)\n" + pbt::show(rules_text, 600); }
    std::vector<std::unique_ptr<aut::Ast>> asts;
    if (api) { for (auto const& p : r.pats) { asts.push_back(aut::build(*p)); } }
    else { asts = aut::asts_of(texts); }
    auto lxp = std::make_unique_for_overwrite<aut::Lexer>();  // default-initialised, in dirty memory
    auto& lx = *lxp;
    for (size_t i = 0; i < nr; ++i) { lx.add_rule(r.ids[i], std::move(asts[i])); }
    lx.generate();
    if (lx.get_has_delimiters()) { fail("a lexer that was given no delimiters claims to have some"); }
    std::string firsts;
    for (int b = 0; b < 256; ++b) {
        bool want = false;
        for (auto& n : r.nfa) { want |= n.step(n.start(), static_cast<unsigned char>(b)) >= 0; }
        if (want) { firsts += static_cast<char>(b); }
        if (lx.is_first_char(static_cast<uint8_t>(b)) != want) {
            fail("is_first_char(" + std::to_string(b) + ") is " + (want ? "false" : "true") + " but the rules say otherwise");
        }
    }
    std::string soup = g.alphabet + "0" + firsts.substr(0, 20) + std::string("\x80\xff\x00", 3);
    size_t ni = 2 + c.draw(6);
    for (size_t k = 0; k < ni; ++k) {
        std::string s;
        size_t parts = c.skewed(14);
        for (size_t j = 0; j < parts; ++j) {
            switch (c.weighted({8, 2, 1, 1})) {
                case 0: s += rx::sample(*r.pats[c.draw(nr)], c, g.alphabet, 20); break;
                case 1: s += model::mutate(c, rx::sample(*r.pats[c.draw(nr)], c, g.alphabet, 12), soup); break;
                case 2: s += soup[c.draw(soup.size())]; break;
                default: {
                    auto x = rx::sample(*r.pats[c.draw(nr)], c, g.alphabet, 8);
                    size_t n = c.draw(30);
                    for (size_t q = 0; q < n; ++q) { s += x; }
                }
            }
        }
        if (ctx.want_desc && k < 4) { ctx.desc += " | input \"" + pbt::show(s, 200) + "\""; }
        bool backed = false;
        auto want = reference(r, s, backed);
        auto cmp = [&](std::vector<Tk> const& got, size_t limit, std::string const& how) {
            auto w = want;
            if (w.size() > limit) { w.resize(limit); }
            if (w == got) { return; }
            size_t i = 0;
            while (i < w.size() && i < got.size() && w[i] == got[i]) { ++i; }
            fail("input \"" + pbt::show(s, 300) + "\" " + how + ": token " + std::to_string(i) + " should be "
                 + (i < w.size() ? show(w[i]) : std::string("none")) + " but is " + (i < got.size() ? show(got[i]) : std::string("none")));
        };
        auto limit = [&] { return c.chance(1, 5) ? 1 + c.draw(want.size()) : cNoLimit; };
        auto l1 = limit();
        cmp(scan_whole(lx, s, l1), l1, "as one buffer");
        for (size_t q = 0; q < 2; ++q) {
            std::vector<size_t> cuts;
            size_t nc = c.draw(5);
            for (size_t j = 0; j < nc; ++j) { cuts.push_back(c.draw(s.size() + 1)); }
            std::sort(cuts.begin(), cuts.end());
            // an empty buffer that is not the end tells the lexer nothing
            cuts.erase(std::remove(cuts.begin(), cuts.end(), size_t{0}), cuts.end());
            auto l = limit();
            cmp(scan_pieces(lx, s, cuts, l), l, "in " + std::to_string(cuts.size() + 1) + " pieces");
        }
        std::vector<size_t> sizes;
        size_t ns = 1 + c.draw(3);
        for (size_t j = 0; j < ns; ++j) { sizes.push_back(c.chance(1, 2) ? 1 + c.draw(9) : 1000000); }
        auto l3 = limit();
        cmp(scan_reader(lx, s, sizes, l3), l3, "from a reader");
        ctx.labels["tokens compared"] += 4 * want.size();
        if (want.size() >= 4 && backed) { ctx.nontrivial(hash_str(s, hash_str(rules_text))); }
    }
}
