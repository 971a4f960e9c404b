// Reference model of log parsing, written from docs/schema.md and docs/parsing-constraints.md:
// tokens at delimiters, longest match, events by timestamps else newlines, log types.
#pragma once
#include <set>

#include "regex.hpp"

namespace model {
struct Rule {
    std::string name;
    rx::P pat;
    bool ts{false};
};
struct Schema {
    std::vector<Rule> rules;
    std::string delims;
    std::string alphabet;  // generator hint
    auto has_ts() const -> bool {
        for (auto const& r : rules) { if (r.ts) { return true; } }
        return false;
    }
    auto is_delim(unsigned char c) const -> bool { return delims.find(static_cast<char>(c)) != std::string::npos; }
    auto delim_line() const -> std::string {
        std::string t = "delimiters:";
        for (char d : delims) { t += rx::lit_text(static_cast<unsigned char>(d)); }
        return t;
    }
    auto rule_line(size_t i) const -> std::string { return rules[i].name + ":" + rx::print(*rules[i].pat); }
    auto text(bool delims_last = false) const -> std::string {
        std::string t;
        if (!delims_last) { t += delim_line() + "\n"; }
        for (size_t i = 0; i < rules.size(); ++i) { t += rule_line(i) + "\n"; }
        if (delims_last) { t += delim_line() + "\n"; }
        t.pop_back();
        return t;
    }
};
enum class T { Uncaught, NewLine, Var, Ts };
struct Tok {
    size_t b, e;
    T t;
    std::vector<std::string> names;  // Var: distinct rule names in schema order
};
struct Event {
    std::string text;
    bool has_ts{false};
    std::string ts;
    bool multiline{false};
    std::string logtype;
    struct TokView {
        std::string text;
        T t;
        std::vector<std::string> names;
    };
    std::vector<TokView> toks;
};

class Parser {
public:
    explicit Parser(Schema const& s) : m_s(s) {
        for (auto const& r : s.rules) { m_nfa.emplace_back(*r.pat); }
        for (int c = 0; c < 256; ++c) { m_d[c] = s.is_delim(static_cast<unsigned char>(c)); }
    }
    auto tokenize(std::string const& in) -> std::vector<Tok> {
        std::vector<Tok> out;
        size_t last = 0;  // end of last match
        size_t n = in.size();
        bool sof = true;
        size_t i = 0;
        while (true) {
            // candidate: start of input, or the next delimiter
            if (!sof) {
                while (i < n && !m_d[uc(in[i])]) { ++i; }
                if (i >= n) { break; }
            }
            size_t body = sof ? 0 : i + 1;
            bool nl = !sof && in[i] == '\n';
            size_t best = 0;
            Tok t{sof ? 0 : i, 0, T::NewLine, {}};
            if (nl) { best = i + 1; }
            bool found = nl;
            std::vector<size_t> who;
            for (size_t r = 0; r < m_s.rules.size(); ++r) {
                size_t e = 0;
                bool ok = false;
                if (m_s.rules[r].ts) {
                    if (!(sof || nl)) { continue; }
                    int st = m_nfa[r].start();
                    for (size_t j = body; st >= 0; ++j) {
                        if (m_nfa[r].accepting(st) && j > body && (j == n || m_d[uc(in[j])])) { ok = true; e = j; }
                        if (j == n) { break; }
                        st = m_nfa[r].step(st, uc(in[j]));
                    }
                } else {
                    int st = m_nfa[r].start();
                    size_t j = body;
                    while (j < n && !m_d[uc(in[j])] && st >= 0) { st = m_nfa[r].step(st, uc(in[j])); ++j; }
                    if (j > body && st >= 0 && m_nfa[r].accepting(st) && (j == n || m_d[uc(in[j])])) { ok = true; e = j; }
                }
                if (!ok) { continue; }
                if (!found || e > best) { who.clear(); best = e; found = true; who.push_back(r); }
                else if (e == best) { who.push_back(r); }
            }
            sof = false;
            if (!found) {
                // nothing starts here; go on after this delimiter (or at the first one)
                i = body;
                continue;
            }
            if (!who.empty()) {
                t.t = m_s.rules[who[0]].ts ? T::Ts : T::Var;
                for (size_t r : who) {
                    auto nm = m_s.rules[r].ts ? std::string("#ts") : m_s.rules[r].name;
                    if (std::find(t.names.begin(), t.names.end(), nm) == t.names.end()) { t.names.push_back(nm); }
                }
            } else {
                t.names = {"newLine"};
            }
            t.e = best;
            if (t.b > last) { out.push_back({last, t.b, T::Uncaught, {}}); }
            out.push_back(t);
            last = best;
            i = best;
        }
        if (last < n) { out.push_back({last, n, T::Uncaught, {}}); }
        return out;
    }
    auto parse(std::string const& in) -> std::vector<Event> {
        std::vector<Event> evs;
        std::vector<Tok> cur;
        bool cur_ts = false;
        auto emit = [&] {
            evs.push_back(make(in, cur, cur_ts));
            cur.clear();
            cur_ts = false;
        };
        for (auto const& t : tokenize(in)) {
            bool starts_nl = in[t.b] == '\n' && t.t != T::NewLine && t.t != T::Uncaught;
            bool split = starts_nl && (cur_ts ? t.t == T::Ts : true);
            if (split) {
                cur.push_back({t.b, t.b + 1, T::Uncaught, {}});
                emit();
                Tok r = t;
                r.b++;
                cur.push_back(r);
                cur_ts = t.t == T::Ts;
            } else if (t.t == T::NewLine && !cur_ts) {
                cur.push_back(t);
                emit();
            } else {
                if (cur.empty() && t.t == T::Ts) { cur_ts = true; }
                cur.push_back(t);
            }
        }
        if (!cur.empty()) { emit(); }
        return evs;
    }

private:
    static auto uc(char c) -> unsigned char { return static_cast<unsigned char>(c); }
    auto make(std::string const& in, std::vector<Tok> const& ts, bool has_ts) -> Event {
        Event e;
        e.has_ts = has_ts;
        for (size_t i = 0; i < ts.size(); ++i) {
            auto tx = in.substr(ts[i].b, ts[i].e - ts[i].b);
            e.text += tx;
            e.toks.push_back({tx, ts[i].t, ts[i].names});
            if (i == 0 && has_ts) { e.ts = tx; continue; }
            switch (ts[i].t) {
                case T::Uncaught: e.logtype += tx; break;
                case T::NewLine: e.logtype += "<newLine>"; break;
                default:
                    if (m_d[uc(tx[0])]) { e.logtype += tx[0]; }
                    e.logtype += "<" + ts[i].names[0] + ">";
            }
        }
        auto p = e.text.find('\n', e.ts.size());
        e.multiline = has_ts && p != std::string::npos && p + 1 < e.text.size();
        return e;
    }
    Schema const& m_s;
    std::vector<rx::Nfa> m_nfa;
    bool m_d[256]{};
};

// ---------------------------------------------------------------- generators
struct SchemaOpt {
    size_t min_vars{0}, max_vars{5};
    size_t max_ts{2};
    bool nullable{false};
    bool overlap{true};
    bool repeat_names{true};
    bool captures{false};
    int depth{3};
    size_t max_weight{20};
    bool ts_first{true};
    bool many_rules{false};  // sometimes hundreds of rules
};
inline auto gen_delims(pbt::Choices& c) -> std::string {
    std::string d = "\n";
    static std::string const pool = " \t\r:,!;%=/\"[]()#";
    size_t n = c.weighted({1, 6, 3, 2, 1});
    for (size_t i = 0; i < n; ++i) {
        char x = pool[i == 0 && c.chance(3, 4) ? 0 : c.draw(pool.size())];
        if (c.chance(1, 12)) {
            // any punctuation, or a near neighbour of a delimiter in byte order
            x = static_cast<char>(33 + c.draw(94));
            if (c.chance(1, 2)) { x = static_cast<char>(d.back() + 1 + static_cast<char>(c.draw(3))); }
            if (x < 32 || x > 126 || std::isalnum(static_cast<unsigned char>(x))) { continue; }
        }
        if (d.find(x) == std::string::npos) { d += x; }
    }
    return d;
}
inline auto gen_ts(pbt::Choices& c, std::string const& delims, std::string const& alpha) -> rx::P {
    using namespace rx;
    P p;
    auto add = [&](P x) { p = p ? mk2(K::Cat, p, x) : x; };
    std::string seps = ":-. ";
    for (char d : delims) { if (d != '\n' && seps.find(d) == std::string::npos) { seps += d; } }
    size_t n = 1 + c.draw(5);
    for (size_t i = 0; i < n; ++i) {
        switch (c.weighted({4, 2, 4, 2, 2, 1})) {
            case 0: { int k = 1 + static_cast<int>(c.draw(4)); add(mk_rep(mk_digit(), k, k, true)); break; }
            case 1: add(mk2(K::Plus, mk_digit(), nullptr)); break;
            case 2: add(mk_lit(static_cast<unsigned char>(seps[c.draw(seps.size())]))); break;
            case 3: add(mk_lit(static_cast<unsigned char>(alpha[c.draw(alpha.size())]))); break;
            case 4: {
                P x = mk_rep(mk_digit(), 1, 1, true);
                P y = mk2(K::Cat, mk_lit(static_cast<unsigned char>(seps[c.draw(seps.size())])), x);
                add(mk_rep(y, 0, 1 + static_cast<int>(c.draw(2)), false));
                break;
            }
            default: {
                P x = mk_lit(static_cast<unsigned char>(alpha[c.draw(alpha.size())]));
                P y = mk_lit(static_cast<unsigned char>(seps[c.draw(seps.size())]));
                add(mk2(K::Or, x, y));
            }
        }
    }
    if (nullable(*p)) { p = mk2(K::Cat, mk_digit(), p); }
    return p;
}
// The kind of schema people write (docs/schema.md, examples/schema.txt): a random selection of well-known rules.
inline auto gen_real_schema(pbt::Choices& c, SchemaOpt const& o) -> Schema {
    using namespace rx;
    Schema s;
    s.delims = "\n";
    for (char d : std::string(" \t\r:,!;%")) { if (d == ' ' || c.chance(3, 4)) { s.delims += d; } }
    s.alphabet = "abAB019-._/=xIN";
    auto lit = [](char ch) { return mk_lit(static_cast<unsigned char>(ch)); };
    auto cat = [](std::vector<P> v) {
        P p = v[0];
        for (size_t i = 1; i < v.size(); ++i) { p = mk2(K::Cat, p, v[i]); }
        return p;
    };
    auto word = [&](std::string const& w) {
        std::vector<P> v;
        for (char ch : w) { v.push_back(lit(ch)); }
        return cat(v);
    };
    auto dig = [&](int n) { return mk_rep(mk_digit(), n, n, true); };
    auto range = [&](std::string const& text, std::string const& members) {
        Set st;
        for (char ch : members) { st.set(static_cast<unsigned char>(ch)); }
        return mk_leaf(K::Group, st, text);
    };
    auto dots = [&] {
        Set all;
        all.set();
        for (char d : s.delims) { all.reset(static_cast<unsigned char>(d)); }
        return mk2(K::Star, mk_leaf(K::Dot, all, "."), nullptr);
    };
    std::string lower, upper, digits = "0123456789";
    for (char ch = 'a'; ch <= 'z'; ++ch) { lower += ch; upper += static_cast<char>(ch - 32); }
    auto opt = [&](P p) { return mk_rep(p, 0, 1, false); };
    auto hhmmss = [&] { return cat({dig(2), lit(':'), dig(2), lit(':'), dig(2)}); };
    auto date = [&] { return cat({dig(4), lit('-'), dig(2), lit('-'), dig(2)}); };
    auto add = [&](std::string const& n, P p, bool ts = false) { s.rules.push_back({n, p, ts}); };
    if (o.max_ts > 0) {
        std::vector<P> ts{cat({date(), lit(' '), hhmmss()}), cat({date(), lit(' '), hhmmss(), opt(cat({lit(','), dig(3)}))}),
                          cat({date(), lit('T'), hhmmss(), lit('.'), dig(3)}), cat({lit('['), dig(8), lit('-'), hhmmss(), lit(']')}),
                          cat({word("Jan"), lit(' '), dig(2), lit(' '), hhmmss()}), cat({dig(2), lit('/'), dig(2), lit(' '), hhmmss()}),
                          cat({hhmmss(), opt(cat({lit('.'), mk2(K::Plus, mk_digit(), nullptr)}))})};
        size_t n = std::min(o.max_ts, c.weighted({1, 4, 2, 1}));
        for (size_t i = 0; i < n; ++i) { add("timestamp", ts[c.draw(ts.size())], true); }
    }
    std::vector<std::pair<std::string, P>> v;
    auto num = [&] { return mk2(K::Plus, mk_digit(), nullptr); };
    v.emplace_back("int", cat({opt(lit('-')), mk2(K::Plus, range("[0-9]", digits), nullptr)}));
    v.emplace_back("float", cat({opt(lit('-')), num(), lit('.'), num()}));
    v.emplace_back("hex", mk2(K::Or, mk2(K::Plus, range("[a-fA-F]", lower.substr(0, 6) + upper.substr(0, 6)), nullptr),
                              mk2(K::Plus, range("[a-f\\d]", lower.substr(0, 6) + digits), nullptr)));
    v.emplace_back("loglevel", mk2(K::Or, mk2(K::Or, word("INFO"), word("WARN")), word("ERROR")));
    v.emplace_back("path", cat({mk2(K::Plus, cat({lit('/'), mk2(K::Plus, range("[a-zA-Z0-9_\\.]", lower + upper + digits + "_."), nullptr)}), nullptr)}));
    v.emplace_back("hasNumber", cat({dots(), mk_digit(), dots()}));
    v.emplace_back("equals", cat({dots(), lit('='), dots(), range("[a-zA-Z0-9]", lower + upper + digits), dots()}));
    v.emplace_back("ip", cat({mk_rep(mk_digit(), 1, 3, false), lit('.'), mk_rep(mk_digit(), 1, 3, false), lit('.'), mk_rep(mk_digit(), 1, 3, false)}));
    v.emplace_back("userID", cat({word("user"), lit('='), num()}));
    size_t nv = std::max(o.min_vars, c.draw(std::min<size_t>(o.max_vars, v.size()) + 1));
    while (s.rules.empty() || nv > 0) {
        auto i = c.draw(v.size());
        add(v[i].first, v[i].second);
        if (!o.repeat_names || c.chance(9, 10)) { v.erase(v.begin() + static_cast<long>(i)); }
        nv -= nv > 0;
        if (v.empty()) { break; }
    }
    if (!o.ts_first && c.chance(1, 4)) { std::reverse(s.rules.begin(), s.rules.end()); }
    return s;
}
inline auto gen_schema_plain(pbt::Choices& c, SchemaOpt const& o) -> Schema {
    if (c.chance(1, 8)) { return gen_real_schema(c, o); }
    Schema s;
    s.delims = gen_delims(c);
    static std::string const apool = "abcxyzABM01289-_.@+#/=:";
    size_t na = 2 + c.draw(5);
    for (size_t i = 0; i < na || s.alphabet.size() < 2; ++i) {
        char x = i < 2 ? apool[i] : apool[c.draw(apool.size())];
        if (s.delims.find(x) == std::string::npos && s.alphabet.find(x) == std::string::npos) { s.alphabet += x; }
    }
    rx::GenOpt g;
    g.alphabet = s.alphabet;
    g.delims = s.delims;
    g.captures = o.captures;
    g.max_weight = o.max_weight;
    int caps = 0;
    g.cap_counter = &caps;
    static std::vector<std::string> const names
            = {"v0", "v1", "int", "float", "hex", "userId", "X", "loglevel", "t", "delim", "timestamp2", "hasNumber", "d", "ss"};
    auto gen_var = [&](size_t k) {
        Rule r;
        r.pat = rx::gen_pattern(c, g, 1 + static_cast<int>(c.draw(o.depth)));
        if (!o.nullable) { r.pat = rx::non_nullable(c, g, r.pat); }
        bool rep = o.repeat_names && c.chance(1, 6);
        r.name = rep ? names[c.draw(names.size())] : "var" + std::to_string(k);
        return r;
    };
    size_t nts = o.max_ts == 0 ? 0 : c.weighted({2, 4, o.max_ts > 1 ? 2u : 0u, o.max_ts > 2 ? 1u : 0u});
    size_t nv = o.min_vars + c.draw(o.max_vars - o.min_vars + 1);
    if (nts + nv == 0) { nv = 1; }
    for (size_t i = 0; i < nts; ++i) { s.rules.push_back({"timestamp", gen_ts(c, s.delims, s.alphabet), true}); }
    for (size_t i = 0; i < nv; ++i) { s.rules.push_back(gen_var(i)); }
    // make overlapping rules likely: repeat or generalise an existing variable
    if (o.overlap && nv > 0 && c.chance(1, 3)) {
        size_t k = nts + c.draw(nv);
        Rule r = s.rules[k];
        if (c.chance(1, 2)) {
            rx::Set all;
            all.set();
            for (char d : s.delims) { all.reset(static_cast<unsigned char>(d)); }
            auto dot = rx::mk_leaf(rx::K::Dot, all, ".");
            r.pat = c.chance(1, 2) ? rx::mk2(rx::K::Plus, dot, nullptr) : rx::mk2(rx::K::Or, r.pat, dot);
        }
        r.name = c.chance(1, 3) ? r.name : "ov";
        s.rules.insert(s.rules.begin() + static_cast<long>(nts + c.draw(nv + 1)), r);
    }
    if (!o.ts_first && nts > 0 && nv > 0 && c.chance(1, 2)) {
        Rule r = s.rules[0];
        s.rules.erase(s.rules.begin());
        s.rules.insert(s.rules.begin() + static_cast<long>(c.draw(s.rules.size() + 1)), r);
    }
    return s;
}
inline auto gen_schema(pbt::Choices& c, SchemaOpt const& o) -> Schema {
    auto s = gen_schema_plain(c, o);
    if (!s.rules.empty() && c.chance(1, 16)) {
        // a long name
        auto from = s.rules[c.draw(s.rules.size())].name;
        std::string to = "n" + std::string(c.skewed(300), 'q') + "Z";
        bool clash = from == "timestamp";
        for (auto const& r : s.rules) { clash |= r.name == to; }
        if (!clash) { for (auto& r : s.rules) { if (r.name == from) { r.name = to; } } }
    }
    if (o.overlap && c.chance(1, 60)) {
        // one text, a long list of rules that match it
        std::vector<size_t> vars;
        for (size_t i = 0; i < s.rules.size(); ++i) { if (!s.rules[i].ts) { vars.push_back(i); } }
        if (!vars.empty()) {
            auto pat = s.rules[vars[c.draw(vars.size())]].pat;
            size_t n = 6 + c.draw(30);
            for (size_t i = 0; i < n; ++i) {
                size_t at = vars.front() + c.draw(s.rules.size() - vars.front() + 1);
                s.rules.insert(s.rules.begin() + static_cast<long>(at), {"same" + std::to_string(i), pat, false});
            }
        }
    }
    if (o.many_rules && c.chance(1, 100)) {
        // the rules of interest get ids beyond 256, or the others do
        size_t n = 240 + c.draw(60);
        std::vector<Rule> more;
        for (size_t i = 0; i < n; ++i) {
            std::string w = "q" + std::to_string(i * 7919 % 1000);
            rx::P p;
            for (char ch : w) {
                auto l = rx::mk_lit(static_cast<unsigned char>(ch));
                p = p ? rx::mk2(rx::K::Cat, p, l) : l;
            }
            more.push_back({"L" + std::to_string(i), p, false});
        }
        s.rules.insert(c.chance(3, 4) ? s.rules.begin() : s.rules.end(), more.begin(), more.end());
    }
    return s;
}
inline auto mutate(pbt::Choices& c, std::string s, std::string const& pool) -> std::string {
    size_t n = 1 + c.draw(2);
    for (size_t i = 0; i < n; ++i) {
        size_t p = c.draw(s.size() + 1);
        switch (c.draw(3)) {
            case 0: if (p < s.size()) { s.erase(p, 1); } break;
            case 1: s.insert(p, 1, pool[c.draw(pool.size())]); break;
            default: if (p < s.size()) { s[p] = pool[c.draw(pool.size())]; }
        }
    }
    return s;
}
struct LogOpt {
    size_t max_pieces{14};
    bool newlines{true};
    bool high_bytes{true};
    bool byte_fd{false};
    bool ts_bias{false};  // more lines, more (partial) timestamps
};
inline auto gen_log(pbt::Choices& c, Schema const& s, LogOpt const& o) -> std::string {
    std::string out;
    std::vector<size_t> vars, tss;
    for (size_t i = 0; i < s.rules.size(); ++i) { (s.rules[i].ts ? tss : vars).push_back(i); }
    if (vars.size() > 100) {
        // mostly the ends of a very long list
        auto all = vars;
        vars.assign(all.begin(), all.begin() + 6);
        vars.insert(vars.end(), all.end() - 6, all.end());
        for (int i = 0; i < 3; ++i) { vars.push_back(all[c.draw(all.size())]); }
    }
    std::string pool = s.alphabet + s.delims;
    std::string nd;
    for (char d : s.delims) { if (d != '\n') { nd += d; } }
    auto ts_text = [&] {
        std::string t = rx::sample(*s.rules[tss[c.draw(tss.size())]].pat, c, s.alphabet + "0129", 30);
        if (c.chance(1, 5)) { t = c.chance(1, 2) ? mutate(c, t, s.alphabet + nd + "0") : t.substr(0, c.draw(t.size() + 1)); }
        return t;
    };
    size_t n = c.draw(o.max_pieces + 1);
    // one line whose number of tokens is near a power of two
    size_t wide_at = n > 0 && !nd.empty() && !vars.empty() && c.chance(1, 200) ? c.draw(n) : n;
    for (size_t i = 0; i < n; ++i) {
        bool bol = out.empty() || out.back() == '\n';
        if (i == wide_at) {
            if (!bol && o.newlines) { out += '\n'; }
            if (!tss.empty() && c.chance(3, 4)) { out += rx::sample(*s.rules[tss[c.draw(tss.size())]].pat, c, s.alphabet + "0129", 30); }
            auto v = rx::sample(*s.rules[vars[c.draw(vars.size())]].pat, c, s.alphabet, 6);
            size_t k = (c.chance(2, 3) ? 256 : c.chance(1, 2) ? 128 : 512) + c.draw(5) - 3;
            for (size_t j = 0; j < k; ++j) { out += nd[0] + v; }
            if (o.newlines) { out += '\n'; }
            continue;
        }
        if (bol && !tss.empty() && c.chance(o.ts_bias ? 2 : 1, o.ts_bias ? 3 : 2)) { out += ts_text(); continue; }
        switch (c.weighted({6, nd.empty() ? 0u : 6u, o.newlines ? (o.ts_bias ? 9u : 5u) : 0u, 3, 2, tss.empty() ? 0u : (o.ts_bias ? 3u : 1u), o.high_bytes ? 1u : 0u, 1})) {
            case 0:
                if (!vars.empty()) { out += rx::sample(*s.rules[vars[c.draw(vars.size())]].pat, c, s.alphabet, 30); }
                else { out += s.alphabet[c.draw(s.alphabet.size())]; }
                break;
            case 1: {
                size_t k = c.chance(1, 4) ? 2 : 1;
                for (size_t j = 0; j < k; ++j) { out += nd[c.draw(nd.size())]; }
                break;
            }
            case 2: {
                size_t k = c.weighted({5, 2, 1}) + 1;
                out.append(k, '\n');
                break;
            }
            case 3: {
                size_t k = 1 + c.draw(4);
                for (size_t j = 0; j < k; ++j) { out += s.alphabet[c.draw(s.alphabet.size())]; }
                break;
            }
            case 4:
                if (!vars.empty()) {
                    auto t = rx::sample(*s.rules[vars[c.draw(vars.size())]].pat, c, s.alphabet, 30);
                    out += mutate(c, t, pool);
                }
                break;
            case 5: out += ts_text(); break;
            case 6: {
                static unsigned char const edge[] = {0xFF, 0x00, 0x80, 0x7F, 0xFE, 0xC3, 0x01};
                unsigned b = c.chance(1, 2) ? edge[c.draw(sizeof edge)] : static_cast<unsigned>(c.draw(256));
                if (b == 0xFD && !o.byte_fd) { b = 0xFC; }
                out += static_cast<char>(b);
                break;
            }
            default: out += pool[c.draw(pool.size())];
        }
        if (!nd.empty() && c.chance(1, 3)) { out += nd[c.draw(nd.size())]; }
    }
    if (!o.newlines) { out.erase(std::remove(out.begin(), out.end(), '\n'), out.end()); }
    return out;
}
}  // namespace model
