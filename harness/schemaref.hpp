// Reference reading of a schema text, written from docs/schema.md: decides acceptance, finds the line of the
// first syntax error (the first character no schema can continue with), and yields the rules as pattern trees.
#pragma once
#include <map>
#include <optional>

#include "regex.hpp"

namespace schemaref {
using rx::K;
using rx::P;
struct Var {
    std::string name;
    P pat;
    size_t line;  // from 0
};
struct Result {
    bool syntax_ok{false};
    size_t err_line{0};  // from 0
    bool bad_group{false}, bad_delims{false};  // reported while parsing, before any later syntax error
    bool semantic_first{false};                // one of them precedes the syntax error
    bool odd_rep{false};                       // {N,M} with M < N: meaning not specified
    size_t max_weight{0}, max_depth{0};
    std::vector<Var> vars;
    std::vector<std::string> delims;  // one entry per delimiters line
    auto parse_ok() const -> bool { return syntax_ok && !bad_group && !bad_delims; }
};
class Reader {
public:
    explicit Reader(std::string const& s) : m_s(s) {}
    auto run() -> Result {
        try {
            schema();
            m_r.syntax_ok = true;
        } catch (SyntaxError const&) {
            m_r.err_line = static_cast<size_t>(std::count(m_s.begin(), m_s.begin() + static_cast<long>(m_i), '\n'));
            m_r.semantic_first = m_r.bad_group || m_r.bad_delims;
        }
        return std::move(m_r);
    }

private:
    struct SyntaxError {};
    static constexpr int cEnd = -1, cKeyword = 256;
    auto cur() const -> int {
        if (m_i >= m_s.size()) { return cEnd; }
        if (m_s.compare(m_i, 10, "delimiters") == 0) { return cKeyword; }
        return static_cast<unsigned char>(m_s[m_i]);
    }
    void next() { m_i += cur() == cKeyword ? 10 : 1; }
    void need(int c) {
        if (cur() != c) { throw SyntaxError{}; }
        next();
    }
    static auto alnum(int c) -> bool { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
    static auto plain(int c) -> bool {
        return alnum(c) || (c > 0 && c < 256 && std::string(" !\"#$%&',/:;=@_`~").find(static_cast<char>(c)) != std::string::npos);
    }
    static auto literal_start(int c) -> bool { return plain(c) || c == '\\' || c == '('; }

    void schema() {
        bool first = true;
        while (true) {
            int c = cur();
            if (!first) {
                if (c == cEnd) { return; }
                newline();
                c = cur();
                if (c == cEnd || c == '\n' || c == '\r') { continue; }
            }
            first = false;
            if (c == '/') { comment(); }
            else if (c == cKeyword) { delimiters(); }
            else if (c == ' ' || alnum(c)) { var(); }
            else { throw SyntaxError{}; }
        }
    }
    void newline() {
        if (cur() == '\r') { next(); }
        need('\n');
    }
    void comment() {
        need('/');
        need('/');
        size_t n = 0;
        while (cur() != cEnd && cur() != '\n' && cur() != '\r') { next(); ++n; }
        if (n == 0) { throw SyntaxError{}; }
    }
    void delimiters() {
        next();
        need(':');
        std::string d;
        do {
            if (!literal_start(cur())) { throw SyntaxError{}; }
            auto p = literal(1);
            if (p->k != K::Lit) { m_r.bad_delims = true; }
            else {
                for (int i = 0; i < 256; ++i) { if (p->set[i]) { d += static_cast<char>(i); } }
            }
        } while (!(cur() == cEnd || cur() == '\n' || cur() == '\r'));
        m_r.delims.push_back(d);
    }
    auto identifier() -> std::string {
        std::string n;
        while (alnum(cur())) { n += static_cast<char>(cur()); next(); }
        if (n.empty()) { throw SyntaxError{}; }
        return n;
    }
    void var() {
        size_t line = static_cast<size_t>(std::count(m_s.begin(), m_s.begin() + static_cast<long>(m_i), '\n'));
        while (cur() == ' ') { next(); }
        auto n = identifier();
        need(':');
        auto p = regex(1);
        if (!(cur() == cEnd || cur() == '\n' || cur() == '\r')) { throw SyntaxError{}; }
        m_r.max_weight = std::max(m_r.max_weight, rx::weight(*p));
        m_r.vars.push_back({n, p, line});
    }
    auto regex(size_t depth) -> P {
        m_r.max_depth = std::max(m_r.max_depth, depth);
        P p;
        do {
            auto q = alternatives(depth);
            p = p ? rx::mk2(K::Cat, p, q) : q;
        } while (literal_start(cur()) || cur() == '[' || cur() == '.');
        return p;
    }
    auto alternatives(size_t depth) -> P {
        auto p = repeated(depth);
        while (cur() == '|') {
            next();
            if (!literal_start(cur())) { throw SyntaxError{}; }
            p = rx::mk2(K::Or, p, literal(depth));
        }
        return p;
    }
    auto repeated(size_t depth) -> P {
        auto p = group(depth);
        switch (cur()) {
            case '*': next(); return rx::mk2(K::Star, p, nullptr);
            case '+': next(); return rx::mk2(K::Plus, p, nullptr);
            case '{': {
                next();
                int lo = integer(), hi = lo;
                bool exact = true;
                if (cur() == ',') { next(); hi = integer(); exact = false; }
                need('}');
                if (hi < lo) { m_r.odd_rep = true; }
                return rx::mk_rep(p, lo, hi, exact);
            }
            default: return p;
        }
    }
    auto integer() -> int {
        long v = 0;
        size_t n = 0;
        while (cur() >= '0' && cur() <= '9') {
            v = std::min(v * 10 + (cur() - '0'), 1000000L);
            next();
            ++n;
        }
        if (n == 0) { throw SyntaxError{}; }
        return static_cast<int>(v);
    }
    auto group(size_t depth) -> P {
        if (cur() == '.') {
            next();
            rx::Set s;
            s.set();
            return rx::mk_leaf(K::Dot, s, ".");
        }
        if (cur() == '\\' && m_i + 1 < m_s.size()) {
            char e = m_s[m_i + 1];
            if (e == 'd' || e == 's') {
                next();
                if (cur() == cKeyword) { throw SyntaxError{}; }
                next();
                return e == 'd' ? rx::mk_digit() : rx::mk_space();
            }
        }
        if (cur() == '[') { return bracket(depth); }
        if (!literal_start(cur())) { throw SyntaxError{}; }
        return literal(depth);
    }
    auto bracket(size_t depth) -> P {
        size_t b = m_i;
        need('[');
        rx::Set s;
        bool neg = cur() == '^';
        if (neg) { next(); }
        size_t n = neg ? 1 : 0;
        while (true) {
            if (cur() == ']' && n > 0) { break; }
            ++n;
            if (cur() == '\\' && m_i + 1 < m_s.size() && (m_s[m_i + 1] == 'd' || m_s[m_i + 1] == 's')) {
                next();
                if (cur() == cKeyword) { throw SyntaxError{}; }
                bool digit = cur() == 'd';
                next();
                if (digit) { for (int ch = '0'; ch <= '9'; ++ch) { s.set(ch); } }
                // not documented inside brackets; the code reports an error
                else { m_r.bad_group = true; }
                continue;
            }
            if (!literal_start(cur())) { throw SyntaxError{}; }
            auto l = literal(depth);
            if (cur() == '-') {
                next();
                if (!literal_start(cur())) { throw SyntaxError{}; }
                auto r = literal(depth);
                int lo = one(l), hi = one(r);
                if (lo < 0 || hi < 0 || lo > hi) { m_r.bad_group = true; continue; }
                for (int ch = lo; ch <= hi; ++ch) { s.set(ch); }
            } else if (one(l) < 0) {
                m_r.bad_group = true;
            } else {
                s.set(one(l));
            }
        }
        need(']');
        if (neg) { s.flip(); }
        return rx::mk_leaf(K::Group, s, m_s.substr(b, m_i - b));
    }
    static auto one(P const& p) -> int {
        if (p->k != K::Lit) { return -1; }
        for (int i = 0; i < 256; ++i) { if (p->set[i]) { return i; } }
        return -1;
    }
    auto literal(size_t depth) -> P {
        int c = cur();
        if (c == '(') {
            next();
            if (cur() == '?') {
                next();
                need('<');
                auto n = identifier();
                need('>');
                auto p = regex(depth + 1);
                need(')');
                return rx::mk_cap(n, p);
            }
            auto p = regex(depth + 1);
            need(')');
            return p;
        }
        if (c == '\\') {
            next();
            c = cur();
            char r = 0;
            switch (c) {
                case 't': r = '\t'; break;
                case 'n': r = '\n'; break;
                case 'v': r = '\v'; break;
                case 'f': r = '\f'; break;
                case 'r': r = '\r'; break;
                default:
                    if (c <= 0 || c > 255 || !rx::is_special(static_cast<unsigned char>(c))) { throw SyntaxError{}; }
                    r = static_cast<char>(c);
            }
            next();
            return rx::mk_lit(static_cast<unsigned char>(r));
        }
        if (!plain(c)) { throw SyntaxError{}; }
        next();
        return rx::mk_lit(static_cast<unsigned char>(c));
    }
    std::string const& m_s;
    size_t m_i{0};
    Result m_r;
};
inline auto read(std::string const& s) -> Result { return Reader(s).run(); }
// bytes a pattern can contain; '.' never contains a delimiter
inline auto possible(rx::Node const& n, std::string const& delims) -> rx::Set {
    if (n.k == K::Dot) {
        rx::Set s = n.set;
        for (char d : delims) { s.reset(static_cast<unsigned char>(d)); }
        return s;
    }
    if (rx::is_leaf(n)) { return n.set; }
    if (n.k == K::Rep && n.hi == 0) { return {}; }
    rx::Set s = possible(*n.a, delims);
    if (n.b) { s |= possible(*n.b, delims); }
    return s;
}
// the same tree with '.' standing for the non-delimiter bytes
inline auto bind(P const& n, std::string const& delims) -> P {
    if (!n) { return n; }
    if (n->k == K::Dot) { return rx::mk_leaf(K::Dot, possible(*n, delims), "."); }
    if (rx::is_leaf(*n)) { return n; }
    auto r = std::make_shared<rx::Node>(*n);
    r->a = bind(n->a, delims);
    r->b = bind(n->b, delims);
    return r;
}
// size of the deterministic automaton of all rules, up to a bound
inline auto small_dfa(Result const& r, std::string const& delims) -> bool {
    if (r.max_weight > 60) { return false; }
    std::vector<rx::Nfa> n;
    for (auto const& v : r.vars) { n.emplace_back(*schemaref::bind(v.pat, v.name == "timestamp" ? std::string{} : delims)); }
    std::map<std::vector<int>, int> seen;
    std::vector<std::vector<int>> todo;
    std::vector<int> init;
    for (auto& x : n) { init.push_back(x.start()); }
    seen[init] = 0;
    todo.push_back(init);
    while (!todo.empty()) {
        auto v = todo.back();
        todo.pop_back();
        for (int ch = 0; ch < 128; ++ch) {
            std::vector<int> w;
            for (size_t i = 0; i < n.size(); ++i) { w.push_back(n[i].step(v[i], static_cast<unsigned char>(ch))); }
            if (seen.emplace(w, 0).second) {
                if (seen.size() > 600) { return false; }
                todo.push_back(w);
            }
        }
    }
    return true;
}
}  // namespace schemaref
