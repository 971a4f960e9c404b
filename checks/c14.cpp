// C14: capture tags along accepting runs mark exactly the groups a derivation goes through; clones are independent.
#include "automata.hpp"
using namespace sut;
pbt::PropInfo const pbt::g_info{
        "C14",
        "case = 1-3 patterns with 1-8 nested capture groups (under alternation, repetition, optional parts, concatenation and other "
        "groups) compiled into one tagged automaton, from the syntax tree itself or from a clone whose original is modified or "
        "destroyed; for sampled and mutated strings, the set of all accepting runs found by walking the automaton (bytes, group opened, "
        "group closed, groups marked unmatched, rule id) must equal the set obtained structurally from the patterns. "
        "Non-trivial: some string has a run through a group, and one with a group marked as unmatched.",
        30,
        2048
};
namespace {
struct Ev {
    char kind;  // '(' open, ')' close, '-' unmatched
    std::string tag;
    size_t pos;
};
using Trace = std::vector<Ev>;
constexpr size_t cMax = 3000;
struct TooMany {};
// ---- reference: all derivations of the pattern on s
struct Ref {
    std::string const& s;
    size_t count{0};
    using R = std::vector<std::pair<size_t, Trace>>;
    void tick(size_t n = 1) {
        if ((count += n) > 20 * cMax) { throw TooMany{}; }
    }
    static void tags(rx::Node const& n, std::vector<std::string>& out) {
        if (n.a) { tags(*n.a, out); }
        if (n.b) { tags(*n.b, out); }
        if (n.k == rx::K::Cap) { out.push_back(n.name); }
    }
    static auto negs(rx::Node const& n, size_t pos) -> Trace {
        std::vector<std::string> t;
        tags(n, t);
        Trace r;
        for (auto const& x : t) { r.push_back({'-', x, pos}); }
        return r;
    }
    auto seq(R const& l, rx::Node const& n) -> R {
        R out;
        for (auto const& [e, t] : l) {
            for (auto const& [e2, t2] : run(n, e)) {
                tick();
                auto x = t;
                x.insert(x.end(), t2.begin(), t2.end());
                out.emplace_back(e2, std::move(x));
            }
        }
        return out;
    }
    auto loop(rx::Node const& n, size_t i, int lo, int hi) -> R {
        R out;
        if (lo == 0) {
            out.emplace_back(i, negs(*n.a, i));
            lo = 1;
        }
        R cur{{i, {}}};
        for (int k = 1; (hi < 0 || k <= hi) && !cur.empty(); ++k) {
            cur = seq(cur, *n.a);
            if (k >= lo) { out.insert(out.end(), cur.begin(), cur.end()); }
        }
        return out;
    }
    auto run(rx::Node const& n, size_t i) -> R {
        tick();
        switch (n.k) {
            case rx::K::Cat: return seq(run(*n.a, i), *n.b);
            case rx::K::Or: {
                R out;
                for (int side = 0; side < 2; ++side) {
                    auto const& other = side ? *n.a : *n.b;
                    for (auto& [e, t] : run(side ? *n.b : *n.a, i)) {
                        auto ng = negs(other, e);
                        t.insert(t.end(), ng.begin(), ng.end());
                        out.emplace_back(e, std::move(t));
                    }
                }
                return out;
            }
            case rx::K::Cap: {
                R out;
                for (auto& [e, t] : run(*n.a, i)) {
                    Trace x{{'(', n.name, i}};
                    x.insert(x.end(), t.begin(), t.end());
                    x.push_back({')', n.name, e});
                    out.emplace_back(e, std::move(x));
                }
                return out;
            }
            case rx::K::Star: return loop(n, i, 0, -1);
            case rx::K::Plus: return loop(n, i, 1, -1);
            case rx::K::Rep: return loop(n, i, n.lo, n.hi);
            default: return i < s.size() && n.set[static_cast<unsigned char>(s[i])] ? R{{i + 1, {}}} : R{};
        }
    }
};
// Order of opens and closes; per group the order of its own marks, an unmatched mark with the groups open around it. Where exactly
// within the skipped part an unmatched mark sits is left open.
auto canonical(uint32_t id, Trace const& t) -> std::string {
    std::string pos;
    std::map<std::string, std::string> per;
    std::string stack;
    for (auto const& e : t) {
        if (e.kind == '-') {
            per[e.tag] += "-" + stack + ";";
        } else {
            pos += e.kind + e.tag + "@" + std::to_string(e.pos) + " ";
            if (e.kind == '(') { stack += "/" + e.tag; }
            else {
                if (!stack.ends_with("/" + e.tag)) { return "rule " + std::to_string(id) + ": group " + e.tag + " is closed while open groups are \"" + stack + "\""; }
                stack.resize(stack.size() - e.tag.size() - 1);
            }
            per[e.tag] += e.kind + std::to_string(e.pos) + ";";
        }
    }
    std::string r = "rule " + std::to_string(id) + ": " + pos;
    for (auto const& [k, v] : per) { r += "| " + k + ":" + v; }
    return r;
}
// ---- all accepting runs of the automaton on s
struct Runs {
    std::string const& s;
    std::set<std::string> out;
    size_t steps{0};
    std::vector<std::pair<uint32_t, Trace>> raw;
    template <class Tr>
    static auto names(Tr const& tr) -> std::vector<std::string> {
        std::unordered_map<aut::NState const*, uint32_t> ids{{tr.get_dest_state(), 0}};
        auto t = tr.serialize(ids);
        if (!t) { fail("a tagged transition cannot be serialized"); }
        auto a = t->find('['), b = t->rfind(']');
        std::vector<std::string> r;
        std::string cur;
        for (size_t i = a + 1; i < b; ++i) {
            if ((*t)[i] == ',') {
                r.push_back(cur);
                cur.clear();
            } else { cur += (*t)[i]; }
        }
        r.push_back(cur);
        return r;
    }
    void go(aut::NState const* st, size_t i, Trace& t, std::vector<aut::NState const*> seg) {
        if (++steps > 40 * cMax) { throw TooMany{}; }
        if (std::find(seg.begin(), seg.end(), st) != seg.end()) { return; }
        seg.push_back(st);
        if (i == s.size() && st->is_accepting()) { out.insert(canonical(st->get_matching_variable_id(), t)); }
        for (auto const* d : st->get_epsilon_transitions()) { go(d, i, t, seg); }
        auto tagged = [&](char kind, auto const& tr) {
            auto n0 = t.size();
            for (auto& n : names(tr)) { t.push_back({kind, n, i}); }
            go(tr.get_dest_state(), i, t, {});
            t.resize(n0);
        };
        for (auto const& tr : st->get_positive_tagged_start_transitions()) { tagged('(', tr); }
        if (auto const& tr = st->get_positive_tagged_end_transition()) { tagged(')', *tr); }
        if (auto const& tr = st->get_negative_tagged_transition()) { tagged('-', *tr); }
        if (i < s.size()) {
            for (auto const* d : st->get_byte_transitions(static_cast<uint8_t>(s[i]))) { go(d, i + 1, t, {}); }
        }
    }
};
// loops only over parts that consume something
auto fix(Choices& c, rx::P const& n, std::string const& alpha) -> rx::P {
    if (rx::is_leaf(*n)) { return n; }
    auto r = std::make_shared<rx::Node>(*n);
    r->a = fix(c, n->a, alpha);
    if (n->b) { r->b = fix(c, n->b, alpha); }
    if ((n->k == rx::K::Star || n->k == rx::K::Plus || n->k == rx::K::Rep) && rx::nullable(*r->a)) {
        r->a = rx::mk2(rx::K::Cat, r->a, rx::mk_lit(static_cast<unsigned char>(alpha[c.draw(alpha.size())])));
    }
    return r;
}
auto join_set(std::set<std::string> const& a, std::set<std::string> const& b) -> std::string {
    std::string o;
    size_t n = 0;
    for (auto const& x : a) { if (!b.contains(x) && ++n <= 4) { o += "\n    " + x; } }
    return o.empty() ? " none" : o;
}
}  // namespace
void pbt::prop(Choices& c, Ctx& ctx) {
    static std::string const pool = "abcAB01_ ";
    std::string alpha = "ab";
    for (size_t i = c.draw(3); i > 0; --i) { alpha += pool[c.draw(pool.size())]; }
    std::string const delims = " ";
    int caps = 0;
    rx::GenOpt g;
    g.alphabet = alpha;
    g.captures = true;
    g.cap_counter = &caps;
    g.max_weight = 22;
    g.negate = c.chance(1, 3);
    size_t n = 1 + c.weighted({6, 2, 1});
    std::vector<rx::P> pats;
    size_t longest = 12;
    for (size_t i = 0; i < n; ++i) {
        auto p = rx::gen_pattern(c, g, 2 + static_cast<int>(c.draw(4)));
        if (!rx::has_kind(*p, rx::K::Cap)) {
            auto cap = rx::mk_cap("g" + std::to_string(caps++), p);
            auto q = rx::mk_lit(static_cast<unsigned char>(alpha[c.draw(alpha.size())]));
            switch (c.draw(4)) {
                case 0: p = cap; break;
                case 1: p = rx::mk2(rx::K::Or, cap, q); break;
                case 2: p = rx::mk2(rx::K::Star, cap, nullptr); break;
                default: p = rx::mk2(rx::K::Cat, q, rx::mk_rep(cap, 0, 2, false));
            }
        }
        if (c.chance(1, 15)) {
            // many groups next to each other, or as many alternatives
            size_t k = 5 + c.draw(20);
            auto kind = c.chance(2, 3) ? rx::K::Cat : rx::K::Or;
            bool left = c.chance(1, 2);
            rx::P many;
            for (size_t j = 0; j < k; ++j) {
                auto x = rx::mk_cap("g" + std::to_string(caps++), rx::mk_lit(static_cast<unsigned char>(alpha[c.draw(alpha.size())])));
                many = !many ? x : left ? rx::mk2(kind, many, x) : rx::mk2(kind, x, many);
            }
            switch (c.draw(4)) {
                case 0: p = many; break;
                case 1: p = rx::mk2(rx::K::Or, many, p); break;
                case 2: p = rx::mk2(rx::K::Or, p, many); break;
                default: p = rx::mk2(rx::K::Cat, p, rx::mk_rep(many, 0, 1, false));
            }
            longest = 40;
            ctx.label("more than four groups side by side");
        }
        pats.push_back(fix(c, p, alpha));
    }
    std::string text;
    std::vector<uint32_t> ids;
    for (size_t i = 0; i < n; ++i) {
        ids.push_back(static_cast<uint32_t>(c.chance(1, 2) ? i : 5 + c.draw(3)));
        text += (i ? ", " : "") + std::to_string(ids[i]) + "=" + rx::print(*pats[i]);
    }
    if (ctx.want_desc) { ctx.desc = text; }
    // where each tree comes from
    std::vector<aut::Rule> rules;
    std::string how;
    std::vector<std::unique_ptr<aut::Ast>> keep;
    std::string direct;
    std::vector<std::string> texts;
    for (size_t i = 0; i < 2 * n; ++i) { texts.push_back(rx::print(*pats[i % n])); }
    std::vector<std::unique_ptr<aut::Ast>> trees;
    if (c.chance(1, 4)) { for (size_t i = 0; i < 2 * n; ++i) { trees.push_back(aut::build(*pats[i % n])); } }
    else { trees = aut::asts_of(texts); }
    {
        std::vector<aut::Rule> r0;
        for (size_t i = 0; i < n; ++i) { r0.emplace_back(ids[i], std::move(trees[i])); }
        direct = aut::Nfa{std::move(r0)}.serialize();
    }
    bool dotted = false;
    std::vector<uint32_t> dv{' ', 'a'};
    for (size_t i = 0; i < n; ++i) {
        auto a = std::move(trees[n + i]);
        auto ser = a->serialize();
        {
            std::vector<std::string> want;
            Ref::tags(*pats[i], want);
            std::set<std::string> w(want.begin(), want.end()), got;
            for (auto const* t : a->get_subtree_positive_tags()) { got.emplace(t->get_name()); }
            if (w != got) { fail("pattern " + rx::print(*pats[i]) + ": the tree reports the groups {" + join({got.begin(), got.end()}) + "} instead of {" + join({w.begin(), w.end()}) + "}"); }
        }
        auto clone_of = [&](aut::Ast& x) {
            std::unique_ptr<aut::Ast> y(x.clone());
            if (y->serialize() != ser) { fail("pattern " + rx::print(*pats[i]) + ": a clone's structure differs from the original's"); }
            return y;
        };
        size_t k = c.weighted({3, 3, 2, 2, 2});
        how += std::to_string(k);
        std::unique_ptr<aut::Ast> use;
        switch (k) {
            case 0: use = std::move(a); break;
            case 1:
                use = clone_of(*a);
                a.reset();
                break;
            case 2: {
                auto b = clone_of(*a);
                a.reset();
                use = clone_of(*b);
                b.reset();
                break;
            }
            case 3: {  // modify the clone, use the original
                auto b = clone_of(*a);
                b->remove_delimiters_from_wildcard(dv);
                if (a->serialize() != ser) { fail("pattern " + rx::print(*pats[i]) + ": modifying a clone changes the original"); }
                use = std::move(a);
                if (c.chance(1, 2)) { keep.push_back(std::move(b)); }
                break;
            }
            default: {  // modify the original, use the clone
                auto b = clone_of(*a);
                a->remove_delimiters_from_wildcard(dv);
                if (b->serialize() != ser) { fail("pattern " + rx::print(*pats[i]) + ": modifying the original changes a clone"); }
                use = std::move(b);
                if (c.chance(1, 2)) { keep.push_back(std::move(a)); }
            }
        }
        if (use->serialize() != ser) { fail("pattern " + rx::print(*pats[i]) + ": the structure of a tree changes with its clones"); }
        dotted |= rx::has_kind(*pats[i], rx::K::Dot);
        rules.emplace_back(ids[i], std::move(use));
    }
    if (ctx.want_desc) { ctx.desc += " [tree use " + how + "]"; }
    aut::Nfa nfa{std::move(rules)};
    keep.clear();
    if (nfa.serialize() != direct) { fail("patterns " + text + ": the automaton made from clones differs from the automaton made from the patterns"); }
    bool pos = false, neg = false;
    size_t strings = 4 + c.draw(5), done = 0;
    for (size_t k = 0; k < strings; ++k) {
        std::string s = rx::sample(*pats[c.draw(n)], c, alpha, longest > 12 ? longest : 8);
        if (k % 4 == 3) { s = model::mutate(c, s, alpha); }
        if (s.size() > longest) { s.resize(longest); }
        std::set<std::string> want, got;
        try {
            for (size_t i = 0; i < n; ++i) {
                Ref r{s};
                for (auto const& [e, t] : r.run(*pats[i], 0)) {
                    if (e != s.size()) { continue; }
                    want.insert(canonical(ids[i], t));
                    for (auto const& x : t) { (x.kind == '-' ? neg : pos) = true; }
                }
            }
            Runs r{s};
            Trace t;
            r.go(nfa.get_root(), 0, t, {});
            got = std::move(r.out);
        } catch (TooMany const&) { continue; }
        ++done;
        if (want != got) {
            fail("patterns " + text + " on \"" + show(s) + "\": the runs of the automaton differ from the derivations\n  missing:" + join_set(want, got) + "\n  unexpected:" + join_set(got, want));
        }
        if (want.size() > 1) { ctx.label("ambiguous strings"); }
        if (!want.empty()) { ctx.label("matching strings"); }
    }
    if (neg) { ctx.label("with unmatched groups"); }
    if (pos && neg && done) { ctx.nontrivial(hash_str(text)); }
}
