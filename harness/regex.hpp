// Patterns of the documented schema syntax: generator, printer, and two independent
// reference matchers (a Thompson NFA simulation and a set-of-ends structural matcher).
#pragma once
#include <algorithm>
#include <bitset>
#include <map>
#include <memory>
#include <string>
#include <vector>

#include "engine.hpp"

namespace rx {
using Set = std::bitset<256>;
enum class K { Lit, Dot, Digit, Space, Group, Cat, Or, Star, Plus, Rep, Cap };
struct Node;
using P = std::shared_ptr<Node const>;
struct Node {
    K k{K::Lit};
    Set set;           // Lit, Dot, Digit, Space, Group: matched bytes
    std::string text;  // printed form of a leaf
    int lo{0}, hi{0};  // Rep
    bool exact{false};
    P a, b;            // operands
    std::string name;  // Cap
};

inline auto is_special(unsigned char c) -> bool {
    return c && std::string("()*+-.[]\\^{}|<>?").find(static_cast<char>(c)) != std::string::npos;
}
// printable literal in schema syntax; empty if not expressible
inline auto lit_text(unsigned char c) -> std::string {
    switch (c) {
        case '\t': return "\\t";
        case '\n': return "\\n";
        case '\v': return "\\v";
        case '\f': return "\\f";
        case '\r': return "\\r";
        default: break;
    }
    if (c < 32 || c > 126) { return ""; }
    if (is_special(c)) { return std::string("\\") + static_cast<char>(c); }
    return std::string(1, static_cast<char>(c));
}
inline auto mk_lit(unsigned char c) -> P {
    auto n = std::make_shared<Node>();
    n->k = K::Lit;
    n->set.set(c);
    n->text = lit_text(c);
    return n;
}
inline auto mk2(K k, P a, P b) -> P {
    auto n = std::make_shared<Node>();
    n->k = k;
    n->a = std::move(a);
    n->b = std::move(b);
    return n;
}
inline auto mk_rep(P a, int lo, int hi, bool exact) -> P {
    auto n = std::make_shared<Node>();
    n->k = K::Rep;
    n->a = std::move(a);
    n->lo = lo;
    n->hi = hi;
    n->exact = exact;
    return n;
}
inline auto mk_cap(std::string name, P a) -> P {
    auto n = std::make_shared<Node>();
    n->k = K::Cap;
    n->a = std::move(a);
    n->name = std::move(name);
    return n;
}
inline auto mk_leaf(K k, Set s, std::string text) -> P {
    auto n = std::make_shared<Node>();
    n->k = k;
    n->set = s;
    n->text = std::move(text);
    return n;
}
inline auto mk_digit() -> P {
    Set s;
    for (int c = '0'; c <= '9'; ++c) { s.set(c); }
    return mk_leaf(K::Digit, s, "\\d");
}
// documented: ' ', \r, \t, \v, \f  (the code also takes \n; callers never present \n to it)
inline auto mk_space() -> P {
    Set s;
    for (char c : {' ', '\r', '\t', '\v', '\f', '\n'}) { s.set(static_cast<unsigned char>(c)); }
    return mk_leaf(K::Space, s, "\\s");
}
inline auto is_leaf(Node const& n) -> bool {
    return n.k == K::Lit || n.k == K::Dot || n.k == K::Digit || n.k == K::Space || n.k == K::Group;
}

// ---- printer. `sp` draws redundant parentheses when given.
inline auto print(Node const& n) -> std::string;
inline auto atom(Node const& n) -> std::string {
    if (is_leaf(n) || n.k == K::Cap) { return print(n); }
    return "(" + print(n) + ")";
}
inline auto print(Node const& n) -> std::string {
    switch (n.k) {
        case K::Lit: case K::Dot: case K::Digit: case K::Space: case K::Group: return n.text;
        case K::Cat: {
            // an Or operand must be wrapped, '|' binds tighter than concatenation
            auto l = n.a->k == K::Or ? "(" + print(*n.a) + ")" : print(*n.a);
            auto r = n.b->k == K::Or ? "(" + print(*n.b) + ")" : print(*n.b);
            if (n.b->k == K::Cat) { r = "(" + r + ")"; }
            return l + r;
        }
        case K::Or: return "(" + print(*n.a) + ")|(" + print(*n.b) + ")";
        case K::Star: return atom(*n.a) + "*";
        case K::Plus: return atom(*n.a) + "+";
        case K::Rep:
            if (n.exact) { return atom(*n.a) + "{" + std::to_string(n.lo) + "}"; }
            return atom(*n.a) + "{" + std::to_string(n.lo) + "," + std::to_string(n.hi) + "}";
        case K::Cap: return "(?<" + n.name + ">" + print(*n.a) + ")";
    }
    return "";
}
inline auto nullable(Node const& n) -> bool {
    switch (n.k) {
        case K::Cat: return nullable(*n.a) && nullable(*n.b);
        case K::Or: return nullable(*n.a) || nullable(*n.b);
        case K::Star: return true;
        case K::Plus: case K::Cap: return nullable(*n.a);
        case K::Rep: return n.hi == 0 || n.lo == 0 || nullable(*n.a);
        default: return false;
    }
}
inline auto possible(Node const& n) -> Set {
    if (is_leaf(n)) { return n.set; }
    Set s = possible(*n.a);
    if (n.b) { s |= possible(*n.b); }
    return s;
}
inline auto has_kind(Node const& n, K k) -> bool {
    return n.k == k || (n.a && has_kind(*n.a, k)) || (n.b && has_kind(*n.b, k));
}
inline auto size(Node const& n) -> size_t { return 1 + (n.a ? size(*n.a) : 0) + (n.b ? size(*n.b) : 0); }
// rough number of automaton positions after expanding repetitions
inline auto weight(Node const& n) -> size_t {
    if (is_leaf(n)) { return 1; }
    size_t w = weight(*n.a) + (n.b ? weight(*n.b) : 0);
    if (n.k == K::Rep) { w *= static_cast<size_t>(std::max(n.hi, 1)); }
    return w;
}

// ---- reference matcher 1: structural, sets of end positions
class Ends {
public:
    Ends(Node const& n, std::string const& s) : m_s(s) { m_root = &n; }
    auto full() -> bool {
        auto v = ends(*m_root, 0);
        return v[m_s.size()];
    }
    auto ends(Node const& n, size_t i) -> std::vector<bool> const& {
        auto key = std::make_pair(&n, i);
        auto it = m_memo.find(key);
        if (it != m_memo.end()) { return it->second; }
        std::vector<bool> r(m_s.size() + 1, false);
        switch (n.k) {
            case K::Cat: {
                auto l = ends(*n.a, i);
                for (size_t j = i; j <= m_s.size(); ++j) {
                    if (l[j]) { or_in(r, ends(*n.b, j)); }
                }
                break;
            }
            case K::Or:
                or_in(r, ends(*n.a, i));
                or_in(r, ends(*n.b, i));
                break;
            case K::Cap: r = ends(*n.a, i); break;
            case K::Star: r = iter(n, i, 0, -1); break;
            case K::Plus: r = iter(n, i, 1, -1); break;
            case K::Rep: r = iter(n, i, n.lo, n.hi); break;
            default:
                if (i < m_s.size() && n.set[static_cast<unsigned char>(m_s[i])]) { r[i + 1] = true; }
        }
        return m_memo[key] = r;
    }

private:
    static void or_in(std::vector<bool>& a, std::vector<bool> const& b) {
        for (size_t i = 0; i < a.size(); ++i) { a[i] = a[i] || b[i]; }
    }
    auto iter(Node const& n, size_t i, int lo, int hi) -> std::vector<bool> {
        std::vector<bool> acc(m_s.size() + 1, false), cur(m_s.size() + 1, false);
        cur[i] = true;
        if (lo == 0) { acc = cur; }
        int maxit = hi >= 0 ? hi : static_cast<int>(m_s.size()) + 1 + lo;
        for (int k = 1; k <= maxit; ++k) {
            std::vector<bool> nxt(m_s.size() + 1, false);
            for (size_t j = 0; j <= m_s.size(); ++j) {
                if (cur[j]) { or_in(nxt, ends(*n.a, j)); }
            }
            cur = nxt;
            if (k >= lo) { or_in(acc, cur); }
        }
        return acc;
    }
    std::string const& m_s;
    Node const* m_root;
    std::map<std::pair<Node const*, size_t>, std::vector<bool>> m_memo;
};

// ---- reference matcher 2: Thompson NFA with lazily cached subset DFA
class Nfa {
public:
    explicit Nfa(Node const& n) {
        auto [s, e] = build(n);
        m_start = s;
        m_end = e;
        std::vector<int> v{m_start};
        m_init = intern(closure(v));
    }
    auto start() const -> int { return m_init; }
    auto accepting(int d) const -> bool { return d >= 0 && m_acc[d]; }
    // -1 when dead
    auto step(int d, unsigned char c) -> int {
        if (d < 0) { return -1; }
        int& t = m_trans[d][c];
        if (t != -2) { return t; }
        std::vector<int> nx;
        for (int s : m_states[d]) {
            if (m_to[s] >= 0 && m_set[s][c]) { nx.push_back(m_to[s]); }
        }
        int r = nx.empty() ? -1 : intern(closure(nx));
        m_trans[d][c] = r;
        return r;
    }
    auto match(std::string const& s) -> bool {
        int d = m_init;
        for (unsigned char c : s) {
            d = step(d, c);
            if (d < 0) { return false; }
        }
        return accepting(d);
    }

private:
    auto st() -> int {
        m_eps.emplace_back();
        m_set.emplace_back();
        m_to.push_back(-1);
        return static_cast<int>(m_to.size()) - 1;
    }
    auto build(Node const& n) -> std::pair<int, int> {
        int s = st(), e = st();
        switch (n.k) {
            case K::Cat: {
                auto [a, b] = build(*n.a);
                auto [c, d] = build(*n.b);
                m_eps[s].push_back(a);
                m_eps[b].push_back(c);
                m_eps[d].push_back(e);
                break;
            }
            case K::Or: {
                auto [a, b] = build(*n.a);
                auto [c, d] = build(*n.b);
                m_eps[s].push_back(a);
                m_eps[s].push_back(c);
                m_eps[b].push_back(e);
                m_eps[d].push_back(e);
                break;
            }
            case K::Cap: {
                auto [a, b] = build(*n.a);
                m_eps[s].push_back(a);
                m_eps[b].push_back(e);
                break;
            }
            case K::Star: case K::Plus: {
                auto [a, b] = build(*n.a);
                m_eps[s].push_back(a);
                m_eps[b].push_back(a);
                m_eps[b].push_back(e);
                if (n.k == K::Star) { m_eps[s].push_back(e); }
                break;
            }
            case K::Rep: {
                int cur = s;
                if (n.lo == 0) { m_eps[s].push_back(e); }
                for (int i = 1; i <= n.hi; ++i) {
                    auto [a, b] = build(*n.a);
                    m_eps[cur].push_back(a);
                    cur = b;
                    if (i >= n.lo) { m_eps[cur].push_back(e); }
                }
                break;
            }
            default:
                m_set[s] = n.set;
                m_to[s] = e;
        }
        return {s, e};
    }
    auto closure(std::vector<int> v) -> std::vector<int> {
        std::vector<bool> seen(m_to.size(), false);
        for (int x : v) { seen[x] = true; }
        for (size_t i = 0; i < v.size(); ++i) {
            for (int y : m_eps[v[i]]) {
                if (!seen[y]) { seen[y] = true; v.push_back(y); }
            }
        }
        std::vector<int> r;
        for (size_t i = 0; i < seen.size(); ++i) {
            if (seen[i]) { r.push_back(static_cast<int>(i)); }
        }
        return r;
    }
    auto intern(std::vector<int> const& v) -> int {
        auto it = m_ids.find(v);
        if (it != m_ids.end()) { return it->second; }
        int id = static_cast<int>(m_states.size());
        m_ids[v] = id;
        m_states.push_back(v);
        m_acc.push_back(std::find(v.begin(), v.end(), m_end) != v.end());
        m_trans.emplace_back(256, -2);
        return id;
    }
    std::vector<std::vector<int>> m_eps;
    std::vector<Set> m_set;
    std::vector<int> m_to;
    int m_start{0}, m_end{0}, m_init{0};
    std::map<std::vector<int>, int> m_ids;
    std::vector<std::vector<int>> m_states;
    std::vector<bool> m_acc;
    std::vector<std::vector<int>> m_trans;
};

// ---- sampling a string of the language
inline void sample_into(Node const& n, pbt::Choices& c, std::string const& prefer, std::string& out, size_t max_len) {
    switch (n.k) {
        case K::Cat:
            sample_into(*n.a, c, prefer, out, max_len);
            sample_into(*n.b, c, prefer, out, max_len);
            return;
        case K::Or: sample_into(c.draw(2) ? *n.b : *n.a, c, prefer, out, max_len); return;
        case K::Cap: sample_into(*n.a, c, prefer, out, max_len); return;
        case K::Star: case K::Plus: {
            uint64_t k = (n.k == K::Plus ? 1 : 0) + c.weighted({6, 5, 3, 2, 1});
            if (k > 1 && c.chance(1, 40)) { k += 30; }
            for (uint64_t i = 0; i < k && (i == 0 || out.size() < max_len); ++i) { sample_into(*n.a, c, prefer, out, max_len); }
            return;
        }
        case K::Rep: {
            uint64_t k = n.lo + c.draw(static_cast<uint64_t>(n.hi - n.lo) + 1);
            for (uint64_t i = 0; i < k; ++i) { sample_into(*n.a, c, prefer, out, max_len); }
            return;
        }
        default: {
            // prefer characters of the working alphabet, they collide with other rules
            std::string cand;
            for (char ch : prefer) {
                if (n.set[static_cast<unsigned char>(ch)]) { cand += ch; }
            }
            if (cand.empty() || c.chance(1, 8)) {
                cand.clear();
                for (int i = 0; i < 256; ++i) {
                    if (n.set[i] && i != '\n' && i != 0xFD) { cand += static_cast<char>(i); }
                }
            }
            if (!cand.empty()) { out += cand[c.draw(cand.size())]; }
        }
    }
}
inline auto sample(Node const& n, pbt::Choices& c, std::string const& prefer, size_t max_len = 60) -> std::string {
    std::string s;
    sample_into(n, c, prefer, s, max_len);
    return s;
}

// ---- generator
struct GenOpt {
    std::string alphabet;       // literal characters to use (non-delimiters for variables)
    std::string delims;         // for '.' and negated groups
    bool dot{true};
    bool negate{true};
    bool digit{true};
    bool space{false};
    bool captures{false};
    bool zero_rep{true};        // allow {0,M} with M >= 1
    bool rep00{false};          // allow {0} and {0,0}
    size_t max_weight{24};
    int* cap_counter{nullptr};
};
inline auto gen_group(pbt::Choices& c, GenOpt const& o) -> P {
    bool neg = o.negate && c.chance(1, 4);
    std::string text = "[";
    Set s;
    if (neg) { text += "^"; }
    size_t n = 1 + c.draw(3);
    for (size_t i = 0; i < n; ++i) {
        size_t kind = c.weighted({4, 4, o.digit ? 2u : 0u});
        if (kind == 2) {
            text += "\\d";
            for (int ch = '0'; ch <= '9'; ++ch) { s.set(ch); }
            continue;
        }
        unsigned char a = o.alphabet[c.draw(o.alphabet.size())];
        if (kind == 0) {
            text += lit_text(a);
            s.set(a);
            continue;
        }
        // a range whose members contain no delimiter (in a negated group they may)
        unsigned char b = a;
        size_t len = 1 + c.draw(12);
        for (size_t j = 0; j < len; ++j) {
            unsigned char nx = b + 1;
            if (nx > 126 || lit_text(nx).empty()) { break; }
            if (!neg && o.delims.find(static_cast<char>(nx)) != std::string::npos) { break; }
            b = nx;
        }
        text += lit_text(a) + "-" + lit_text(b);
        for (int ch = a; ch <= b; ++ch) { s.set(ch); }
    }
    if (neg) {
        for (char d : o.delims) {
            text += lit_text(static_cast<unsigned char>(d));
            s.set(static_cast<unsigned char>(d));
        }
        s.flip();
    }
    text += "]";
    return mk_leaf(K::Group, s, text);
}
inline auto gen_leaf(pbt::Choices& c, GenOpt const& o) -> P {
    switch (c.weighted({8, o.digit ? 3u : 0u, o.dot ? 2u : 0u, 4, o.space ? 2u : 0u})) {
        case 1: return mk_digit();
        case 2: {
            Set s;
            s.set();
            for (char d : o.delims) { s.reset(static_cast<unsigned char>(d)); }
            return mk_leaf(K::Dot, s, ".");
        }
        case 3: return gen_group(c, o);
        case 4: return mk_space();
        default: return mk_lit(static_cast<unsigned char>(o.alphabet[c.draw(o.alphabet.size())]));
    }
}
inline auto gen(pbt::Choices& c, GenOpt const& o, int depth) -> P {
    if (depth <= 0) { return gen_leaf(c, o); }
    switch (c.weighted({5, 7, 4, 2, 3, 3, o.captures ? 4u : 0u})) {
        case 1: return mk2(K::Cat, gen(c, o, depth - 1), gen(c, o, depth - 1));
        case 2: return mk2(K::Or, gen(c, o, depth - 1), gen(c, o, depth - 1));
        case 3: return mk2(K::Star, gen(c, o, depth - 1), nullptr);
        case 4: return mk2(K::Plus, gen(c, o, depth - 1), nullptr);
        case 5: {
            auto a = gen(c, o, depth - 1);
            bool exact = c.chance(1, 2);
            int lo = 0, hi = 0;
            if (o.rep00 && c.chance(1, 6)) { return mk_rep(a, 0, 0, exact); }
            if (exact) {
                lo = hi = 1 + static_cast<int>(c.draw(4));
            } else {
                lo = static_cast<int>(c.draw(3)) + (o.zero_rep ? 0 : 1);
                hi = std::max(1, lo) + static_cast<int>(c.draw(3));
            }
            return mk_rep(a, lo, hi, exact);
        }
        case 6: {
            auto a = gen(c, o, depth - 1);
            std::string nm = "g" + std::to_string(o.cap_counter ? (*o.cap_counter)++ : 0);
            return mk_cap(nm, a);
        }
        default: return gen_leaf(c, o);
    }
}
// bounded-size pattern
inline auto gen_pattern(pbt::Choices& c, GenOpt const& o, int depth) -> P {
    auto p = gen(c, o, depth);
    for (int i = 0; i < 4 && weight(*p) > o.max_weight; ++i) { p = gen(c, o, depth > 1 ? depth - 1 : 1); }
    while (weight(*p) > o.max_weight) { p = gen_leaf(c, o); }
    return p;
}
// make a non-nullable pattern out of p by appending a literal when needed
inline auto non_nullable(pbt::Choices& c, GenOpt const& o, P p) -> P {
    if (!nullable(*p)) { return p; }
    auto l = mk_lit(static_cast<unsigned char>(o.alphabet[c.draw(o.alphabet.size())]));
    return c.chance(1, 2) ? mk2(K::Cat, p, l) : mk2(K::Cat, l, p);
}
}  // namespace rx
