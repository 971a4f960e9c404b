// C17: the LALR(1) engine accepts exactly the language of its grammar and runs the actions of the derivation in order.
#include <log_surgeon/LALR1Parser.hpp>

#include "automata.hpp"
using namespace sut;
pbt::PropInfo const pbt::g_info{
        "C17",
        "case = a reduced random context-free grammar (1-10 nonterminals, 1-12 tokens that are single characters, character groups or "
        "words; epsilon, unit, left/right/centre-recursive productions, lists, operators; some productions without action, shuffled), "
        "classified by independent SLR(1) and canonical-LR(1)-merged-to-LALR(1) constructions: SLR(1) must be generated, non-LALR(1) must "
        "be refused; a generated parser is run on derived, mutated and random strings (chunked reader, reused parser, also after parses ended by a throwing action or a failing reader) against a span "
        "recogniser and its derivation (action order, children), and on derivations of up to thousands of tokens; one case in sixty is the right-linear grammar of a deterministic automaton "
        "with 10-620 nonterminals and bodies of up to 300 symbols. "
        "Non-trivial: a generated parser of a grammar with at least 3 productions that accepts one string and refuses another.",
        30,
        2048
};
namespace {
using Parser = log_surgeon::LALR1Parser<aut::NState, aut::DState>;
using log_surgeon::NonTerminal;
using log_surgeon::ParserAST;
using log_surgeon::ParserValue;
struct Prod {
    int head;
    std::vector<int> body;  // < n_nt: nonterminal, otherwise token
    bool action{true};
};
struct Grammar {
    int nt{0}, tok{0};
    std::vector<Prod> p;  // p[0].head is the start symbol
    auto is_nt(int s) const -> bool { return s < nt; }
    auto sym(int s) const -> std::string { return is_nt(s) ? std::string(1, static_cast<char>('A' + s)) : std::string(1, static_cast<char>('a' + s - nt)); }
    auto text() const -> std::string {
        std::string t;
        for (auto const& x : p) {
            t += (t.empty() ? "" : "; ") + sym(x.head) + " ->";
            for (int s : x.body) { t += " " + sym(s); }
            if (x.body.empty()) { t += " eps"; }
            if (!x.action) { t += " (no action)"; }
        }
        return t;
    }
};
void reduce(Grammar& g) {
    std::vector<bool> prod(static_cast<size_t>(g.nt)), reach(static_cast<size_t>(g.nt));
    auto ok = [&](Prod const& x) {
        for (int s : x.body) { if (g.is_nt(s) && !prod[static_cast<size_t>(s)]) { return false; } }
        return true;
    };
    for (bool ch = true; ch;) {
        ch = false;
        for (auto const& x : g.p) { if (!prod[static_cast<size_t>(x.head)] && ok(x)) { prod[static_cast<size_t>(x.head)] = ch = true; } }
    }
    std::vector<Prod> q;
    for (auto const& x : g.p) { if (ok(x)) { q.push_back(x); } }
    reach[0] = true;
    for (bool ch = true; ch;) {
        ch = false;
        for (auto const& x : q) {
            if (!reach[static_cast<size_t>(x.head)]) { continue; }
            for (int s : x.body) { if (g.is_nt(s) && !reach[static_cast<size_t>(s)]) { reach[static_cast<size_t>(s)] = ch = true; } }
        }
    }
    g.p.clear();
    for (auto const& x : q) {
        if (!reach[static_cast<size_t>(x.head)]) { continue; }
        bool dup = false;
        for (auto const& y : g.p) { dup |= y.head == x.head && y.body == x.body; }
        if (!dup) { g.p.push_back(x); }
    }
    for (size_t i = 0; i < g.p.size(); ++i) { if (g.p[i].head == 0) { std::swap(g.p[0], g.p[i]); break; } }
}
// ---- independent LR constructions. Augmented production has index -1; end marker is token id `end`.
struct LR {
    Grammar const& g;
    int end;
    std::vector<std::set<int>> first, follow;
    std::vector<bool> null;
    explicit LR(Grammar const& gr) : g(gr), end(gr.nt + gr.tok), first(static_cast<size_t>(gr.nt)), follow(static_cast<size_t>(gr.nt)), null(static_cast<size_t>(gr.nt)) {
        for (bool ch = true; ch;) {
            ch = false;
            for (auto const& x : g.p) {
                auto [f, n] = first_of(x.body, 0);
                auto& d = first[static_cast<size_t>(x.head)];
                auto before = d.size();
                d.insert(f.begin(), f.end());
                if (d.size() != before) { ch = true; }
                if (n && !null[static_cast<size_t>(x.head)]) { null[static_cast<size_t>(x.head)] = ch = true; }
            }
        }
        follow[0].insert(end);
        for (bool ch = true; ch;) {
            ch = false;
            for (auto const& x : g.p) {
                for (size_t i = 0; i < x.body.size(); ++i) {
                    if (!g.is_nt(x.body[i])) { continue; }
                    auto [f, n] = first_of(x.body, i + 1);
                    if (n) { f.insert(follow[static_cast<size_t>(x.head)].begin(), follow[static_cast<size_t>(x.head)].end()); }
                    auto& d = follow[static_cast<size_t>(x.body[i])];
                    auto before = d.size();
                    d.insert(f.begin(), f.end());
                    ch |= d.size() != before;
                }
            }
        }
    }
    auto first_of(std::vector<int> const& b, size_t i) const -> std::pair<std::set<int>, bool> {
        std::set<int> r;
        for (; i < b.size(); ++i) {
            if (!g.is_nt(b[i])) {
                r.insert(b[i]);
                return {r, false};
            }
            auto const& f = first[static_cast<size_t>(b[i])];
            r.insert(f.begin(), f.end());
            if (!null[static_cast<size_t>(b[i])]) { return {r, false}; }
        }
        return {r, true};
    }
    using It = std::tuple<int, int, int>;  // production, dot, lookahead (-1 in LR(0))
    auto body(int p) const -> std::vector<int> { return p < 0 ? std::vector<int>{0} : g.p[static_cast<size_t>(p)].body; }
    auto closure(std::set<It> k, bool lr1) const -> std::set<It> {
        std::vector<It> todo(k.begin(), k.end());
        while (!todo.empty()) {
            auto [p, d, la] = todo.back();
            todo.pop_back();
            auto b = body(p);
            if (static_cast<size_t>(d) >= b.size() || !g.is_nt(b[static_cast<size_t>(d)])) { continue; }
            std::set<int> las{-1};
            if (lr1) {
                auto [f, n] = first_of(b, static_cast<size_t>(d) + 1);
                if (n) { f.insert(la); }
                las = f;
            }
            for (size_t q = 0; q < g.p.size(); ++q) {
                if (g.p[q].head != b[static_cast<size_t>(d)]) { continue; }
                for (int l : las) {
                    It t{static_cast<int>(q), 0, l};
                    if (k.insert(t).second) { todo.push_back(t); }
                }
            }
        }
        return k;
    }
    // states as closures; false when too big
    auto states(bool lr1, std::vector<std::set<It>>& out, size_t cap) const -> bool {
        std::map<std::set<It>, size_t> ids;
        std::vector<std::set<It>> kernels;
        auto add = [&](std::set<It> const& k) {
            if (ids.emplace(k, kernels.size()).second) { kernels.push_back(k); }
        };
        add({It{-1, 0, lr1 ? end : -1}});
        for (size_t i = 0; i < kernels.size(); ++i) {
            if (kernels.size() > cap) { return false; }
            auto c = closure(kernels[i], lr1);
            std::map<int, std::set<It>> next;
            for (auto const& [p, d, la] : c) {
                auto b = body(p);
                if (static_cast<size_t>(d) < b.size()) { next[b[static_cast<size_t>(d)]].insert(It{p, d + 1, la}); }
            }
            out.push_back(std::move(c));
            for (auto const& [s, k] : next) { add(k); }
        }
        return true;
    }
    // conflict in a state given, per item with the dot at the end, its lookaheads
    auto conflict(std::set<std::pair<int, int>> const& core, std::map<int, std::set<int>> const& las) const -> bool {
        std::map<int, int> act;  // token -> 1 shift; 10+p reduce; 2 accept
        for (auto const& [p, d] : core) {
            auto b = body(p);
            if (static_cast<size_t>(d) < b.size() && !g.is_nt(b[static_cast<size_t>(d)])) { act[b[static_cast<size_t>(d)]] = 1; }
        }
        for (auto const& [p, ls] : las) {
            for (int l : ls) { if (!act.emplace(l, 10 + p).second) { return true; } }
        }
        return false;
    }
    auto slr() const -> bool {
        std::vector<std::set<It>> st;
        if (!states(false, st, 400)) { return false; }
        for (auto const& s : st) {
            std::set<std::pair<int, int>> core;
            std::map<int, std::set<int>> las;
            for (auto const& [p, d, l] : s) {
                core.emplace(p, d);
                if (static_cast<size_t>(d) == body(p).size()) { las[p] = p < 0 ? std::set<int>{end} : follow[static_cast<size_t>(g.p[static_cast<size_t>(p)].head)]; }
            }
            if (conflict(core, las)) { return false; }
        }
        return true;
    }
    // 1 LALR(1), 0 not, -1 unknown
    auto lalr() const -> int {
        std::vector<std::set<It>> st;
        if (!states(true, st, 600)) { return -1; }
        std::map<std::set<std::pair<int, int>>, std::map<int, std::set<int>>> merged;
        for (auto const& s : st) {
            std::set<std::pair<int, int>> core;
            for (auto const& [p, d, l] : s) { core.emplace(p, d); }
            auto& m = merged[core];
            for (auto const& [p, d, l] : s) { if (static_cast<size_t>(d) == body(p).size()) { m[p].insert(l); } }
        }
        for (auto const& [core, las] : merged) { if (conflict(core, las)) { return 0; } }
        return 1;
    }
};
// ---- derivations
struct Tree {
    int prod{-1};  // -1: token
    int token{-1};
    std::vector<Tree> kids;
};
// which spans each nonterminal derives
struct Spans {
    Grammar const& g;
    std::vector<int> const& w;
    size_t n;
    std::vector<std::vector<bool>> d;  // [nt][i*(n+1)+j]
    Spans(Grammar const& gr, std::vector<int> const& in) : g(gr), w(in), n(in.size()), d(static_cast<size_t>(gr.nt), std::vector<bool>((in.size() + 1) * (in.size() + 1))) {
        for (bool ch = true; ch;) {
            ch = false;
            for (auto const& p : g.p) {
                for (size_t i = 0; i <= n; ++i) {
                    auto e = ends(p.body, 0, i);
                    for (size_t j : e) {
                        if (!at(p.head, i, j)) {
                            d[static_cast<size_t>(p.head)][i * (n + 1) + j] = true;
                            ch = true;
                        }
                    }
                }
            }
        }
    }
    auto at(int x, size_t i, size_t j) const -> bool { return d[static_cast<size_t>(x)][i * (n + 1) + j]; }
    auto ends(std::vector<int> const& b, size_t k, size_t i) const -> std::set<size_t> {
        std::set<size_t> cur{i};
        for (; k < b.size(); ++k) {
            std::set<size_t> nx;
            for (size_t a : cur) {
                if (!g.is_nt(b[k])) {
                    if (a < n && w[a] == b[k]) { nx.insert(a + 1); }
                } else {
                    for (size_t j = a; j <= n; ++j) { if (at(b[k], a, j)) { nx.insert(j); } }
                }
            }
            cur = std::move(nx);
        }
        return cur;
    }
    // the derivation; fails if there are two
    auto build(int x, size_t i, size_t j, int depth = 0) const -> Tree {
        if (depth > 200) { fail("the grammar " + g.text() + " is ambiguous (cyclic) but was not refused"); }
        Tree t;
        int found = 0;
        for (size_t k = 0; k < g.p.size(); ++k) {
            if (g.p[k].head != x) { continue; }
            std::vector<size_t> cuts;
            split(g.p[k].body, 0, i, j, cuts, [&] {
                if (++found > 1) { fail("the grammar " + g.text() + " is ambiguous but was not refused"); }
                t.prod = static_cast<int>(k);
                std::vector<Tree> kids;
                size_t a = i;
                for (size_t m = 0; m < cuts.size(); ++m) {
                    int s = g.p[k].body[m];
                    if (g.is_nt(s)) { kids.push_back(build(s, a, cuts[m], depth + 1)); }
                    else { kids.push_back(Tree{-1, s, {}}); }
                    a = cuts[m];
                }
                t.kids = std::move(kids);
            });
        }
        return t;
    }
    template <class F>
    void split(std::vector<int> const& b, size_t k, size_t i, size_t j, std::vector<size_t>& cuts, F&& f) const {
        if (k == b.size()) {
            if (i == j) { f(); }
            return;
        }
        if (!g.is_nt(b[k])) {
            if (i < j && w[i] == b[k]) {
                cuts.push_back(i + 1);
                split(b, k + 1, i + 1, j, cuts, f);
                cuts.pop_back();
            }
            return;
        }
        for (size_t m = i; m <= j; ++m) {
            if (at(b[k], i, m) && ends(b, k + 1, m).contains(j)) {
                cuts.push_back(m);
                split(b, k + 1, m, j, cuts, f);
                cuts.pop_back();
            }
        }
    }
};
struct Log {
    std::vector<int> actions;
};
auto mix(uint64_t a, uint64_t b) -> uint64_t { return (a ^ (b + 0x9E37'79B9'7F4A'7C15ULL + (a << 6) + (a >> 2))) * 0xD6E8FEB86659FD93ULL; }
constexpr uint64_t cNone = 0x1111;
// expected actions and value, bottom-up, left to right (iterative: derivations can be deep)
auto walk(Grammar const& g, Tree const& root, Log& log, std::vector<std::string> const& texts) -> uint64_t {
    struct Frame {
        Tree const* t;
        size_t next;
        uint64_t h;
    };
    size_t tok = 0;
    uint64_t ret = 0;
    std::vector<Frame> st;
    auto open = [&](Tree const& t) { st.push_back({&t, 0, mix(77, static_cast<uint64_t>(t.prod))}); };
    open(root);
    while (!st.empty()) {
        auto& f = st.back();
        if (f.next < f.t->kids.size()) {
            auto const& k = f.t->kids[f.next++];
            if (k.prod < 0) {
                f.h = mix(f.h, hash_str(texts.empty() ? "" : texts[tok], static_cast<uint64_t>(k.token) + 5));
                ++tok;
            } else { open(k); }
            continue;
        }
        ret = cNone;
        if (g.p[static_cast<size_t>(f.t->prod)].action) {
            log.actions.push_back(f.t->prod);
            ret = f.h;
        }
        st.pop_back();
        if (!st.empty()) { st.back().h = mix(st.back().h, ret); }
    }
    return ret;
}
struct TokKind {
    int kind{0};  // 0 char, 1 group, 2 chain
    std::string chars;
};
struct Lang {
    Grammar g;
    std::vector<TokKind> toks;
    // -1: not a token text
    auto lex(std::string const& s, std::vector<int>& out) const -> bool {
        for (size_t i = 0; i < s.size();) {
            bool ok = false;
            for (size_t t = 0; t < toks.size() && !ok; ++t) {
                if (toks[t].kind == 2 ? s.compare(i, toks[t].chars.size(), toks[t].chars) == 0 : toks[t].chars.find(s[i]) != std::string::npos) {
                    out.push_back(g.nt + static_cast<int>(t));
                    i += toks[t].kind == 2 ? toks[t].chars.size() : 1;
                    ok = true;
                }
            }
            if (!ok) { return false; }
        }
        return true;
    }
};
auto gen_grammar(Choices& c) -> Grammar {
    Grammar g;
    g.nt = 1 + static_cast<int>(c.draw(5));
    g.tok = 1 + static_cast<int>(c.chance(1, 6) ? 4 + c.draw(8) : c.draw(4));
    auto T = [&] { return g.nt + static_cast<int>(c.draw(static_cast<uint64_t>(g.tok))); };
    auto N = [&] { return static_cast<int>(c.draw(static_cast<uint64_t>(g.nt))); };
    for (int h = 0; h < g.nt; ++h) {
        auto add = [&](std::vector<int> b) { g.p.push_back({h, std::move(b), !c.chance(1, 6)}); };
        int nx = h + 1 < g.nt ? h + 1 : h;
        switch (c.weighted({5, 2, 1, 1, 1, 1, 1})) {
            case 0: {
                size_t k = 1 + c.draw(3);
                for (size_t i = 0; i < k; ++i) {
                    std::vector<int> b;
                    size_t len = c.weighted({2, 4, 4, 3, 1});
                    for (size_t j = 0; j < len; ++j) { b.push_back(c.chance(1, 2) ? T() : (c.chance(1, 2) ? nx : N())); }
                    add(b);
                }
                break;
            }
            case 1: {  // list, left or right recursive, maybe with separator, maybe empty
                bool left = c.chance(1, 2), sep = c.chance(1, 2), eps = c.chance(1, 2);
                std::vector<int> item{c.chance(1, 2) && nx != h ? nx : T()};
                std::vector<int> b;
                if (left) {
                    b = {h};
                    if (sep) { b.push_back(T()); }
                    b.insert(b.end(), item.begin(), item.end());
                } else {
                    b = item;
                    if (sep) { b.push_back(T()); }
                    b.push_back(h);
                }
                add(b);
                add(eps ? std::vector<int>{} : item);
                break;
            }
            case 2:  // operator level with parentheses-like brackets
                add({h, T(), nx});
                add({nx});
                if (nx == h) { add({T()}); }
                break;
            case 3:
                add({T(), 0, T()});
                add({T()});
                break;
            case 4:  // optional
                add({T()});
                add({});
                break;
            case 5:  // nested
                add({T(), h, T()});
                add(c.chance(1, 2) ? std::vector<int>{} : std::vector<int>{T()});
                break;
            default:
                add({nx, N()});
                add({T()});
        }
    }
    // put new nonterminals between some heads and bodies, so that what the sets contain is only known after several passes
    for (size_t k = c.chance(1, 2) ? c.draw(6) : 0; k > 0 && !g.p.empty(); --k) {
        int fresh = g.nt++;
        for (auto& x : g.p) { for (int& s : x.body) { s += s >= fresh; } }
        auto& x = g.p[c.draw(g.p.size())];
        Prod y{fresh, {}, !c.chance(1, 6)};
        if (x.body.empty() || c.chance(1, 3)) { std::swap(x.body, y.body); x.body = {fresh}; }
        else { std::swap(x.body[c.draw(x.body.size())], y.body.emplace_back(fresh)); }
        g.p.push_back(std::move(y));
    }
    // shuffle, then keep what is reachable and productive
    for (size_t i = g.p.size(); i > 1; --i) { std::swap(g.p[i - 1], g.p[c.draw(i)]); }
    reduce(g);
    return g;
}
// cheapest height of each production, for sampling
auto heights(Grammar const& g) -> std::vector<int> {
    std::vector<int> h(static_cast<size_t>(g.nt), 1000000), ph(g.p.size(), 1000000);
    for (bool ch = true; ch;) {
        ch = false;
        for (size_t i = 0; i < g.p.size(); ++i) {
            int m = 1;
            for (int s : g.p[i].body) { if (g.is_nt(s)) { m = std::max(m, 1 + h[static_cast<size_t>(s)]); } }
            if (m < ph[i]) {
                ph[i] = m;
                ch = true;
                auto& x = h[static_cast<size_t>(g.p[i].head)];
                x = std::min(x, m);
            }
        }
    }
    return ph;
}
auto sample(Grammar const& g, std::vector<int> const& ph, int x, Choices& c, long& budget, int depth) -> Tree {
    std::vector<size_t> can;
    int best = 1 << 30;
    for (size_t i = 0; i < g.p.size(); ++i) { if (g.p[i].head == x) { best = std::min(best, ph[i]); } }
    bool tight = budget <= 0 || depth > 3000;
    for (size_t i = 0; i < g.p.size(); ++i) { if (g.p[i].head == x && (!tight || ph[i] == best)) { can.push_back(i); } }
    size_t k = 0;
    if (can.size() > 1) {
        if (budget > 60) {  // long: prefer the biggest body
            k = 0;
            for (size_t i = 1; i < can.size(); ++i) { if (ph[can[i]] > ph[can[k]]) { k = i; } }
            if (c.chance(1, 8)) { k = c.draw(can.size()); }
        } else { k = c.draw(can.size()); }
    }
    Tree t;
    t.prod = static_cast<int>(can[k]);
    --budget;
    for (int s : g.p[can[k]].body) {
        if (g.is_nt(s)) { t.kids.push_back(sample(g, ph, s, c, budget, depth + 1)); }
        else {
            t.kids.push_back(Tree{-1, s, {}});
            --budget;
        }
    }
    return t;
}
void leaves(Tree const& root, std::vector<int>& out) {
    std::vector<std::pair<Tree const*, size_t>> st{{&root, 0}};
    while (!st.empty()) {
        auto& [t, i] = st.back();
        if (t->prod < 0) {
            out.push_back(t->token);
            st.pop_back();
        } else if (i < t->kids.size()) {
            st.emplace_back(&t->kids[i++], 0);
        } else { st.pop_back(); }
    }
}
struct Engine {
    Lang const& l;
    Parser p;
    Log log;
    bool check_text{true};
    size_t throw_at{SIZE_MAX};  // the action with this number throws
    explicit Engine(Lang const& lang) : l(lang) {
        auto const& g = l.g;
        auto name = [&](int s) { return (g.is_nt(s) ? "N" : "t") + g.sym(s); };
        for (size_t t = 0; t < l.toks.size(); ++t) {
            auto n = name(g.nt + static_cast<int>(t));
            auto const& k = l.toks[t];
            if (k.kind == 0) { p.add_token(n, k.chars[0]); }
            else if (k.kind == 1) { p.add_token_group(n, std::make_unique<log_surgeon::finite_automata::RegexASTGroup<aut::NState>>(static_cast<uint32_t>(k.chars.front()), static_cast<uint32_t>(k.chars.back()))); }
            else { p.add_token_chain(n, k.chars); }
        }
        for (size_t i = 0; i < g.p.size(); ++i) {
            std::vector<std::string> body;
            for (int s : g.p[i].body) { body.push_back(name(s)); }
            log_surgeon::SemanticRule rule = nullptr;
            if (g.p[i].action) { rule = [this, i](NonTerminal* m) { return act(i, m); }; }
            p.add_production(name(g.p[i].head), body, rule);
        }
    }
    auto act(size_t i, NonTerminal* m) -> std::unique_ptr<ParserAST> {
        auto const& b = l.g.p[i].body;
        if (log.actions.size() == throw_at) { throw std::runtime_error("an action refuses"); }
        log.actions.push_back(static_cast<int>(i));
        uint64_t h = mix(77, i);
        for (size_t k = 0; k < b.size(); ++k) {
            if (l.g.is_nt(b[k])) {
                auto& a = m->non_terminal_cast(static_cast<uint32_t>(k))->get_parser_ast();
                h = mix(h, a ? a->get<uint64_t>() : cNone);
            } else {
                auto* t = m->token_cast(static_cast<uint32_t>(k));
                auto ty = t->m_type_ids_ptr->at(0);
                if (p.m_lexer.m_id_symbol.at(ty) != "t" + l.g.sym(b[k])) { fail("a semantic action receives token " + p.m_lexer.m_id_symbol.at(ty) + " as child " + std::to_string(k)); }
                h = mix(h, hash_str(check_text ? t->to_string() : "", static_cast<uint64_t>(b[k]) + 5));
            }
        }
        return std::make_unique<ParserValue<uint64_t>>(h);
    }
    // a parse that is ended by an exception of an action or by a reader error, if it gets that far; returns whether it was ended
    auto disturb(std::string const& in, Choices& c) -> bool {
        log = {};
        Feed f;
        f.data = &in;
        bool act = c.chance(1, 2), ended = false;
        if (act) { throw_at = c.draw(6); }
        else {
            f.err_at_set = true;
            f.err_at = c.draw(in.size() + 1);
        }
        if (c.chance(1, 2)) { f.chunk = [](size_t) -> size_t { return 1; }; }
        auto rd = f.reader();
        try {
            (void)p.parse(rd);
        } catch (pbt::Violation const&) {
            throw;
        } catch (std::exception const& e) { ended = true; }
        throw_at = SIZE_MAX;
        if (!act && !ended) { fail("a failing reader is not reported: \"" + show(in, 200) + "\" is accepted after " + std::to_string(f.err_at) + " bytes"); }
        return ended;
    }
    // accepted?
    auto run(std::string const& in, Choices& c, uint64_t& value, std::string& error) -> bool {
        log = {};
        Feed f;
        f.data = &in;
        size_t mode = c.draw(3);
        if (mode == 1) { f.chunk = [](size_t) -> size_t { return 1; }; }
        if (mode == 2) { f.chunk = [&in](size_t m) -> size_t { return std::min<size_t>(m, 1 + in.size() / 3); }; }
        auto rd = f.reader();
        try {
            auto nt = p.parse(rd);
            value = nt.get_parser_ast() ? nt.get_parser_ast()->get<uint64_t>() : cNone;
        } catch (pbt::Violation const&) {
            throw;
        } catch (std::exception const& e) {
            error = e.what();
            if (error.empty()) { fail("rejected without a description"); }
            return false;
        }
        return true;
    }
};
auto str(std::vector<int> const& v) -> std::string {
    std::string s;
    for (size_t i = 0; i < v.size() && i < 60; ++i) { s += (i ? "," : "") + std::to_string(v[i]); }
    return s;
}
// Right-linear grammars of deterministic automata with hundreds of symbols: SLR(1) by construction, membership and actions read off the automaton.
void wide(Choices& c, Ctx& ctx) {
    struct P { int head; std::string word; int next; };  // head -> word next, or head -> eps when next < 0
    int n = 10 + static_cast<int>(c.draw(c.chance(1, 10) ? 610 : c.chance(1, 3) ? 300 : 60));
    std::vector<P> ps;
    std::vector<std::map<char, size_t>> by(static_cast<size_t>(n));
    std::vector<int> eps(static_cast<size_t>(n), -1);
    bool long_words = c.chance(1, 2);
    auto word = [&](char first) {
        std::string w(1, first);
        size_t k = long_words && c.chance(1, 4) ? c.skewed(300) : c.draw(2);
        for (size_t i = 0; i < k; ++i) { w += "abcd"[c.draw(4)]; }
        return w;
    };
    for (int i = 0; i < n; ++i) {
        auto add = [&](char ch, int to) {
            if (by[static_cast<size_t>(i)].emplace(ch, ps.size()).second) { ps.push_back({i, word(ch), to}); }
        };
        if (i + 1 < n) { add("abcd"[c.draw(4)], i + 1); }
        size_t more = c.draw(3);
        for (size_t k = 0; k < more; ++k) { add("abcd"[c.draw(4)], static_cast<int>(c.draw(static_cast<uint64_t>(n)))); }
        if (i + 1 == n || c.chance(1, 5)) {
            eps[static_cast<size_t>(i)] = static_cast<int>(ps.size());
            ps.push_back({i, "", -1});
        }
    }
    if (ctx.want_desc) {
        ctx.desc = "right-linear grammar of " + std::to_string(n) + " nonterminals:";
        for (auto const& p : ps) { ctx.desc += " N" + std::to_string(p.head) + "->" + p.word + (p.next < 0 ? "eps" : " N" + std::to_string(p.next)) + ";"; }
    }
    Parser p;
    std::vector<int> order;
    for (char ch : std::string("abcd")) { p.add_token(std::string("t") + ch, ch); }
    for (size_t i = 0; i < ps.size(); ++i) {
        std::vector<std::string> body;
        for (char ch : ps[i].word) { body.push_back(std::string("t") + ch); }
        if (ps[i].next >= 0) { body.push_back("N" + std::to_string(ps[i].next)); }
        p.add_production("N" + std::to_string(ps[i].head), body, [&order, i](NonTerminal*) -> std::unique_ptr<ParserAST> {
            order.push_back(static_cast<int>(i));
            return std::make_unique<ParserValue<uint64_t>>(i);
        });
    }
    try {
        p.generate();
    } catch (std::exception const& x) { fail(std::string("a right-linear deterministic grammar is refused: ") + x.what()); }
    size_t yes = 0, no = 0, rounds = 3 + c.draw(10);
    for (size_t r = 0; r < rounds; ++r) {
        std::string in;
        int at = 0;
        size_t steps = c.draw(c.chance(1, 4) ? 400 : 30);
        if (c.chance(3, 4)) {
            for (size_t k = 0; k < steps || eps[static_cast<size_t>(at)] < 0; ++k) {
                auto const& m = by[static_cast<size_t>(at)];
                if (m.empty()) { break; }
                // towards the last state, which is final, once the walk is long enough
                size_t pick = k >= steps ? 0 : c.draw(m.size());
                auto it = m.begin();
                std::advance(it, static_cast<long>(pick));
                if (k >= steps) { for (it = m.begin(); ps[it->second].next != at + 1 && std::next(it) != m.end();) { ++it; } }
                if (in.size() > 4000) { break; }
                in += ps[it->second].word;
                at = ps[it->second].next;
            }
            if (c.chance(1, 3) && !in.empty()) { in[c.draw(in.size())] = "abcd"[c.draw(4)]; }
            if (c.chance(1, 6) && !in.empty()) { in.pop_back(); }
        } else {
            for (size_t k = 0; k < steps; ++k) { in += "abcd"[c.draw(4)]; }
        }
        bool want = true;
        std::vector<int> path;
        size_t pos = 0;
        at = 0;
        while (want && pos < in.size()) {
            auto const& m = by[static_cast<size_t>(at)];
            auto it = m.find(in[pos]);
            want = it != m.end() && in.compare(pos, ps[it->second].word.size(), ps[it->second].word) == 0;
            if (want) {
                path.push_back(static_cast<int>(it->second));
                pos += ps[it->second].word.size();
                at = ps[it->second].next;
            }
        }
        want = want && eps[static_cast<size_t>(at)] >= 0;
        if (want) { path.push_back(eps[static_cast<size_t>(at)]); }
        std::reverse(path.begin(), path.end());
        Feed f;
        f.data = &in;
        auto rd = f.reader();
        order.clear();
        bool got = true;
        std::string error;
        try {
            auto nt = p.parse(rd);
            if (want && (!nt.get_parser_ast() || nt.get_parser_ast()->get<uint64_t>() != static_cast<uint64_t>(path.back()))) { fail("the root does not carry the value of its action"); }
        } catch (pbt::Violation const&) {
            throw;
        } catch (std::exception const& x) {
            got = false;
            error = x.what();
            if (error.empty()) { fail("rejected without a description"); }
        }
        if (want != got) { fail("\"" + show(in, 300) + "\" is " + (want ? "derived but rejected: " + error.substr(0, 300) : std::string("not derived but accepted"))); }
        if (want && order != path) { fail("on \"" + show(in, 300) + "\" actions ran in the order " + str(order) + ", the derivation bottom-up is " + str(path)); }
        (want ? yes : no)++;
    }
    ctx.label("grammars with many symbols");
    if (n > 250) { ctx.label("grammars with more than 250 symbols"); }
    uint64_t h = static_cast<uint64_t>(n);
    for (auto const& x : ps) { h = hash_str(x.word, h + static_cast<uint64_t>(x.next + 2)); }
    if (yes && no) { ctx.nontrivial(h); }
}
}  // namespace
void pbt::prop(Choices& c, Ctx& ctx) {
    if (c.chance(1, 60)) { wide(c, ctx); return; }
    Lang l;
    l.g = gen_grammar(c);
    auto const& g = l.g;
    if (g.p.empty() || g.p[0].head != 0) { throw Discard{}; }
    size_t used = static_cast<size_t>(g.tok);
    static char const* const words[] = {"xyz", "uv", "wpqr", "mn"};
    for (size_t t = 0; t < used; ++t) {
        TokKind k;
        k.kind = t > 3 ? 0 : static_cast<int>(c.weighted({8, 1, 1}));
        k.chars = k.kind == 0 ? std::string(1, "ab\n cdefghij"[t]) : k.kind == 1 ? std::string{"05AK"[t], "49JT"[t]} : std::string(words[t]);
        if (k.kind == 1) {
            std::string all;
            for (char ch = k.chars[0]; ch <= k.chars[1]; ++ch) { all += ch; }
            k.chars = all;
        }
        l.toks.push_back(k);
    }
    if (ctx.want_desc) { ctx.desc = g.text(); }
    LR lr(g);
    bool slr = lr.slr();
    int lalr = lr.lalr();
    if (slr && lalr == 0) { throw std::logic_error("oracle: SLR(1) but not LALR(1)"); }
    auto e = std::make_unique<Engine>(l);
    bool generated = true;
    std::string why;
    try {
        e->p.generate();
    } catch (std::exception const& x) {
        generated = false;
        why = x.what();
    }
    if (generated && lalr == 0) { fail("the grammar " + g.text() + " is not LALR(1) but is not refused"); }
    if (!generated && slr) { fail("the SLR(1) grammar " + g.text() + " is refused: " + why); }
    ctx.label(generated ? "generated" : "refused");
    if (!slr && generated) { ctx.label("generated though not SLR(1)"); }
    if (!generated) { return; }
    auto ph = heights(g);
    size_t yes = 0, no = 0;
    auto text_of = [&](std::vector<int> const& w, std::vector<std::string>* parts) {
        std::string in;
        for (int s : w) {
            auto const& k = l.toks[static_cast<size_t>(s - g.nt)];
            std::string one = k.kind == 1 ? std::string(1, k.chars[in.size() % k.chars.size()]) : k.chars;
            if (parts) { parts->push_back(one); }
            in += one;
        }
        return in;
    };
    auto compare = [&](Tree const& t, std::vector<std::string> const& parts, uint64_t got, std::string const& in) {
        Log want;
        auto v = walk(g, t, want, parts);
        if (want.actions != e->log.actions) { fail("grammar " + g.text() + " on \"" + show(in, 200) + "\": actions ran in the order " + str(e->log.actions) + ", the derivation bottom-up is " + str(want.actions)); }
        if (v != got) { fail("grammar " + g.text() + " on \"" + show(in, 200) + "\": the values of children passed to the actions differ from the derivation"); }
    };
    size_t rounds = 4 + c.draw(5);
    for (size_t r = 0; r < rounds; ++r) {
        std::string in;
        switch (c.weighted({4, 3, 2})) {
            case 0:
            case 1: {
                long budget = static_cast<long>(1 + c.draw(14));
                auto t = sample(g, ph, 0, c, budget, 0);
                std::vector<int> w;
                leaves(t, w);
                if (w.size() > 16) { w.resize(16); }
                if (c.chance(1, 2) && !w.empty()) {
                    size_t at = c.draw(w.size() + 1);
                    int s = g.nt + static_cast<int>(c.draw(static_cast<uint64_t>(g.tok)));
                    switch (c.draw(3)) {
                        case 0: w.insert(w.begin() + static_cast<long>(at), s); break;
                        case 1: if (at < w.size()) { w.erase(w.begin() + static_cast<long>(at)); } break;
                        default: if (at < w.size()) { w[at] = s; }
                    }
                }
                in = text_of(w, nullptr);
                break;
            }
            default: {
                std::vector<int> w;
                size_t n = c.draw(9);
                for (size_t i = 0; i < n; ++i) { w.push_back(g.nt + static_cast<int>(c.draw(static_cast<uint64_t>(g.tok)))); }
                in = text_of(w, nullptr);
            }
        }
        if (c.chance(1, 12)) { in.insert(c.draw(in.size() + 1), 1, "?xuwm\xff"[c.draw(6)]); }
        std::vector<int> w;
        bool lexed = l.lex(in, w);
        bool want = false;
        std::unique_ptr<Spans> sp;
        if (lexed) {
            sp = std::make_unique<Spans>(g, w);
            want = sp->at(0, 0, w.size());
        }
        uint64_t value = 0;
        std::string error;
        if (c.chance(1, 6)) {
            e->check_text = false;
            if (e->disturb(in, c)) { ctx.label("after a parse ended by an exception"); }
        }
        // the text of a token that waits on the stack is only kept while the input fits into half of the buffer
        e->check_text = in.size() < log_surgeon::cStaticByteBuffSize / 2;
        bool got = e->run(in, c, value, error);
        if (ctx.want_desc) { ctx.desc += " | \"" + show(in) + "\" " + (want ? "in" : "out"); }
        if (want && !got) { fail("grammar " + g.text() + " derives \"" + show(in) + "\" but it is rejected: " + error); }
        if (!want && got) { fail("grammar " + g.text() + " does not derive \"" + show(in) + "\" but it is accepted"); }
        (want ? yes : no)++;
        if (want) {
            auto t = sp->build(0, 0, w.size());
            std::vector<std::string> parts;
            size_t at = 0;
            for (int s : w) {
                auto const& k = l.toks[static_cast<size_t>(s - g.nt)];
                parts.push_back(in.substr(at, k.kind == 2 ? k.chars.size() : 1));
                at += parts.back().size();
            }
            if (!e->check_text) { parts.clear(); }
            compare(t, parts, value, in);
        }
    }
    if (c.chance(1, 6)) {
        long budget = static_cast<long>(100 + c.draw(3000));
        auto t = sample(g, ph, 0, c, budget, 0);
        std::vector<int> w;
        leaves(t, w);
        if (w.size() > 60) {
            auto in = text_of(w, nullptr);
            e->check_text = false;
            uint64_t value = 0;
            std::string error;
            if (!e->run(in, c, value, error)) { fail("grammar " + g.text() + ": a derivation of " + std::to_string(w.size()) + " tokens is rejected: " + error.substr(0, 300)); }
            compare(t, {}, value, in);
            ctx.label("long derivations");
        }
    }
    if (yes) { ctx.label("accepts"); }
    if (g.p.size() >= 3 && yes && no) { ctx.nontrivial(hash_str(g.text())); }
}
