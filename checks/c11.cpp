// C11: bad schemas are rejected with an error; nothing crashes, hangs or leaves traces.
#include <fstream>
#include <sys/stat.h>
#include <unistd.h>

#include <log_surgeon/Schema.hpp>

#include "scenario.hpp"
#include "schemaref.hpp"
using namespace sut;
pbt::PropInfo const pbt::g_info{
        "C11",
        "case = one schema text: a valid schema with 1-4 random byte/token/line mutations, a soup of schema tokens, a schema with a planted "
        "problem (no delimiters line, a pattern that can contain a delimiter, unbalanced or unescaped special, reversed range, bad bracket "
        "content, bad delimiters), the same behind a prefix of up to several buffers, arbitrary bytes, or an unreadable path; given as string, "
        "file, or add_variable. A reference reader of the documented syntax decides accept/reject and the line of the first syntax error; "
        "after each case a known good schema and a parser built before all cases must still behave as the model says. Non-trivial: the "
        "text is rejected, or is a mutated text that is accepted.",
        30,
        2048
};
namespace {
struct Scratch {
    std::string dir;
    Scratch() {
        dir = work_dir() + "/c11-XXXXXX";
        if (!mkdtemp(dir.data())) { throw std::runtime_error("mkdtemp"); }
    }
    ~Scratch() {
        for (auto const& f : files) { unlink(f.c_str()); }
        rmdir(dir.c_str());
    }
    auto put(std::string const& name, std::string const& data) -> std::string {
        auto p = dir + "/" + name;
        std::ofstream o(p, std::ios::binary);
        o << data;
        o.close();
        files.push_back(p);
        return p;
    }
    std::vector<std::string> files;
};
struct Canary {
    model::Schema s;
    std::string log;
    std::vector<std::string> names;
    std::vector<Event> want;
    std::unique_ptr<ls::ReaderParser> p;
    Canary() {
        s.delims = "\n ,";
        auto digits = rx::mk2(rx::K::Plus, rx::mk_digit(), nullptr);
        s.rules.push_back({"timestamp", rx::mk2(rx::K::Cat, rx::mk_rep(rx::mk_digit(), 2, 2, true), rx::mk_lit(':')), true});
        s.rules.push_back({"int", digits, false});
        s.rules.push_back({"kv", rx::mk2(rx::K::Cat, rx::mk_cap("k", rx::mk2(rx::K::Plus, rx::mk_lit('k'), nullptr)), rx::mk2(rx::K::Cat, rx::mk_lit('='), digits)), false});
        log = "pre 12,x kk=3\n\n12: hello 44 k=1\nmore,5\n13: z kkk=77 12: 9";
        names = var_names(s);
        model::Parser mp(s);
        want = run_model(mp, log, names);
        p = fresh();
    }
    auto fresh() -> std::unique_ptr<ls::ReaderParser> { return std::make_unique<ls::ReaderParser>(make_ast(s.text())); }
    void check(ls::ReaderParser& q, char const* what) { compare(want, run_reader(q, log, names), All, what); }
};
auto canary() -> Canary& {
    static Canary c;
    return c;
}
auto base_schema(Choices& c) -> std::string {
    model::SchemaOpt so;
    so.captures = c.chance(1, 3);
    so.nullable = c.chance(1, 3);
    so.ts_first = false;
    so.max_weight = 14;
    auto s = model::gen_schema(c, so);
    std::string t = s.text(c.chance(1, 4));
    if (c.chance(1, 3)) {
        // decorate
        std::string u;
        for (char x : t) {
            if (x == '\n') { u += c.chance(1, 4) ? "\r\n" : "\n"; if (c.chance(1, 4)) { u += c.chance(1, 2) ? "//note delimiters: (\n" : "\n"; } }
            else { u += x; }
        }
        t = u;
    }
    return t;
}
auto special(Choices& c) -> std::string {
    static std::vector<std::string> const v{
            "(", ")", "*", "+", "-", ".", "[", "]", "\\", "^", "{", "}", "|", "<", ">", "?", "(?<n>", "(?<", "[^", "{2}", "{2,3}", "{0}", "{,", "{1,",
            "\\d", "\\s", "\\n", "\\x", "\\", "\n", "\r", "\r\n", ":", "//", "/", "delimiters", "delimiters:", "timestamp:", " ", "a", "b", "Z", "9", ",",
            "\t", "_", "a-z", "z-a", "(a)", "[a]", "[(a)]", "[(ab)]", "[a-(b)]", "()", "\"", "$", std::string(1, '\0'), "\x7f", "\x80", "\xff", "a:b", "\nv:a", "{3,1}", "\\(", "\\)", "(a|b)"};
    return c.pick(v);
}
auto mutate_text(Choices& c, std::string t) -> std::string {
    size_t n = 1 + c.draw(3);
    for (size_t i = 0; i < n; ++i) {
        size_t p = c.draw(t.size() + 1);
        switch (c.weighted({5, 4, 3, 2, 1, 1})) {
            case 0: t.insert(p, special(c)); break;
            case 1: if (p < t.size()) { t.erase(p, 1 + c.draw(2)); } break;
            case 2: if (p < t.size()) { t.replace(p, 1, special(c)); } break;
            case 3: {  // duplicate or move a piece
                if (t.empty()) { break; }
                size_t a = c.draw(t.size()), k = 1 + c.draw(8);
                t.insert(p, t.substr(a, k));
                break;
            }
            case 4: {  // drop a line
                size_t a = t.find('\n', p);
                if (a != std::string::npos) { size_t b = t.find('\n', a + 1); t.erase(a, b == std::string::npos ? std::string::npos : b - a); }
                break;
            }
            default: t = t.substr(0, p);
        }
    }
    return t;
}
auto soup(Choices& c) -> std::string {
    std::string t = c.chance(2, 3) ? "delimiters: \\n,\n" : "";
    size_t n = 1 + c.draw(4);
    for (size_t i = 0; i < n; ++i) {
        t += c.chance(7, 8) ? "v" + std::to_string(c.draw(3)) + ":" : "";
        size_t k = 1 + c.draw(10);
        for (size_t j = 0; j < k; ++j) {
            if (c.chance(1, 2)) { t += special(c); }
            else { t += "abcxyz019=@"[c.draw(11)]; }
        }
        if (i + 1 < n || c.chance(1, 3)) { t += c.chance(1, 6) ? "\r\n" : "\n"; }
    }
    return t;
}
// a schema with one planted problem
auto planted(Choices& c, std::string& what) -> std::string {
    model::SchemaOpt so;
    so.captures = c.chance(1, 4);
    so.max_weight = 12;
    auto s = model::gen_schema(c, so);
    std::vector<std::string> lines;
    for (size_t i = 0; i < s.rules.size(); ++i) { lines.push_back(s.rule_line(i)); }
    auto at = [&](std::string const& l) { lines.insert(lines.begin() + static_cast<long>(c.draw(lines.size() + 1)), l); };
    std::string dl = s.delim_line();
    switch (c.draw(8)) {
        case 0: what = "no delimiters"; dl.clear(); break;
        case 7: {
            // a bracket range that starts, ends or passes at a delimiter, or just misses one
            what = "range near a delimiter";
            int d = c.chance(1, 2) ? static_cast<unsigned char>(s.delims[c.draw(s.delims.size())]) : 33 + static_cast<int>(c.draw(94));
            int lo = d, hi = d;
            switch (c.draw(5)) {
                case 0: lo = d - static_cast<int>(c.draw(6)); break;
                case 1: hi = d + static_cast<int>(c.draw(6)); break;
                case 2: lo = d - static_cast<int>(c.draw(6)); hi = d + static_cast<int>(c.draw(6)); break;
                case 3: lo = d + 1; hi = lo + static_cast<int>(c.draw(6)); break;
                default: hi = d - 1; lo = hi - static_cast<int>(c.draw(6)); break;
            }
            auto lit = [](int x) { return rx::lit_text(static_cast<unsigned char>(std::clamp(x, 32, 126))); };
            std::string r = "[" + std::string(c.chance(1, 6) ? "^" : "") + (c.chance(1, 3) ? "a" : "") + lit(lo) + "-" + lit(hi) + (c.chance(1, 3) ? "9" : "") + "]";
            static std::vector<std::string> const post{"", "*", "+", "{2}", "{0,2}", "|x", "a"};
            at("bad:" + std::string(c.chance(1, 3) ? "x" : "") + (c.chance(1, 4) ? "(?<q>" + r + ")" : r) + c.pick(post));
            break;
        }
        case 1: {
            what = "pattern with delimiter";
            rx::GenOpt g;
            g.alphabet = s.alphabet + s.delims;
            g.delims = s.delims;
            g.space = true;
            g.captures = c.chance(1, 4);
            g.rep00 = c.chance(1, 6);
            g.max_weight = 14;
            at("bad:" + rx::print(*rx::gen_pattern(c, g, 1 + static_cast<int>(c.draw(4)))));
            break;
        }
        case 2: {
            what = "negated group without all delimiters";
            std::string t = "bad:[^";
            // each delimiter is left out, named, or inside a range that may start or end with it
            bool all = c.chance(1, 2);
            size_t m = s.delims.size(), from = c.draw(m);
            for (size_t i = 0; i < m; ++i) {
                int d = static_cast<unsigned char>(s.delims[(from + i) % m]);
                if (!all && c.chance(1, 3)) { continue; }
                auto lit = [](int x) { return rx::lit_text(static_cast<unsigned char>(x)); };
                if (d < 33 || d > 126 || c.chance(1, 2)) {
                    t += lit(d);
                    continue;
                }
                int lo = c.chance(1, 2) ? d : std::max(33, d - static_cast<int>(c.draw(12)));
                int hi = c.chance(1, 2) ? d : std::min(126, d + static_cast<int>(c.draw(12)));
                t += lit(lo) + "-" + lit(hi);
            }
            if (c.chance(1, 4)) { t += "0-9"; }
            what = "negated group with ranges over delimiters";
            static std::vector<std::string> const post{"", "+", "*", "{2}", "a"};
            at(t + "]" + c.pick(post));
            break;
        }
        case 3: {
            what = "unescaped special";
            static std::string const sp = "()*+-.[]\\^{}|<>?";
            std::string t = "abc";
            t.insert(c.draw(4), 1, sp[c.draw(sp.size())]);
            at("bad:" + t);
            break;
        }
        case 4: {
            what = "bad range";
            char a = static_cast<char>('a' + c.draw(26)), b = static_cast<char>('a' + c.draw(26));
            at(std::string("bad:[") + a + "-" + b + "]");
            break;
        }
        case 5: {
            what = "bad delimiters line";
            static std::vector<std::string> const b{"delimiters:", "delimiters", "delimiters: ", "delimiters:(ab)", "delimiters:[a]", "delimiters:a*", "delimiters:.", "delimiters:\\d", "delimiters:(?<x>a)", "delimiters:(a)", "delimiters:(a|b)", "delimiters::", "delimiters\t:a", "delimiter: ", " delimiters: "};
            if (c.chance(1, 2)) { dl = c.pick(b); } else { at(c.pick(b)); }
            break;
        }
        default: {
            what = "bad rule line";
            static std::vector<std::string> const b{":abc", "name", "name:", "name :a", "na_me:a", "name:a//x", "name:a b", "/ comment", "//", " //x", "name::", "name:(", "name:)", "name:(?<>a)", "name:(?<x>)", "name:(?<x y>a)", "name:(?<1>a)", "name:{2}", "name:*", "name:a**", "name:a{2}{3}", "name:(a{2}){3}", "name:a|*", "name:|a", "name:a|", "name:a||b", "name:a{", "name:a{}", "name:a{a}", "name:a{1,}", "name:a{,1}", "name:a{1,2", "name:[", "name:[]", "name:[a", "name:[-]", "name:[a-]", "name:[^]", "name:\\", "name:\\q", "\tname:a"};
            at(c.pick(b));
        }
    }
    std::string t = dl;
    for (auto const& l : lines) { t += (t.empty() ? "" : "\n") + l; }
    return t;
}
}  // namespace
void pbt::prop(Choices& c, Ctx& ctx) {
    canary();
    size_t kind = c.weighted({8, 4, 6, 2, 1, 1});
    std::string text, what = "mutated valid schema";
    Scratch sc;
    switch (kind) {
        case 0: text = mutate_text(c, base_schema(c)); break;
        case 1: text = soup(c); what = "token soup"; break;
        case 2: text = planted(c, what); break;
        case 3: {
            // the problem sits behind a prefix that crosses the schema parser's buffers
            what = "problem behind long prefix";
            std::string w;
            auto tail = c.chance(1, 2) ? planted(c, w) : mutate_text(c, base_schema(c));
            text = "//x\n";
            size_t n = c.skewed(cBuf > 4096 ? 60000 : 3000);
            while (text.size() < n) {
                switch (c.draw(4)) {
                    case 0: text += "//"; text.append(1 + c.draw(200), 'c'); break;
                    case 1: text += "v" + std::to_string(text.size()) + ":a" + std::to_string(text.size() % 1000); break;
                    case 2: text.append(c.draw(20), '\n'); continue;
                    default: { std::string p(1 + c.draw(100), 'p'); text += "w:" + p; }
                }
                text += c.chance(1, 8) ? "\r\n" : "\n";
            }
            text += tail;
            break;
        }
        case 4: {
            what = "arbitrary bytes";
            size_t n = c.draw(60);
            for (size_t i = 0; i < n; ++i) { text += static_cast<char>(c.draw(256)); }
            break;
        }
        default: {
            what = "unreadable path";
            std::string path;
            switch (c.draw(4)) {
                case 0: path = sc.dir + "/missing" + std::to_string(c.draw(1000)); break;
                case 1: path = ""; break;
                case 2: path = sc.dir; break;
                default: path = sc.put("plain", "delimiters: \nv:a\n") + "/below"; break;
            }
            if (ctx.want_desc) { ctx.desc = "schema path " + path; }
            std::string route;
            try {
                switch (c.draw(4)) {
                    case 0: route = "try_schema_file"; ls::SchemaParser::try_schema_file(path); break;
                    case 1: { route = "Schema"; ls::Schema s(path); break; }
                    case 2: { route = "ReaderParser"; ls::ReaderParser p(path); break; }
                    default: { route = "BufferParser"; ls::BufferParser p(path); }
                }
                fail(route + " accepted the path \"" + path + "\" although there is no readable file");
            } catch (std::exception const& e) {
                if (dynamic_cast<Violation const*>(&e)) { throw; }
                if (std::string(e.what()).empty()) { fail("empty error message for an unreadable path"); }
                if (path != sc.dir && !path.empty() && std::string(e.what()).find(path) == std::string::npos) {
                    fail("the error for a missing schema file does not name it: " + show(e.what()));
                }
            }
            canary().check(*canary().p, "parser built before the unreadable path");
            ctx.label("unreadable paths");
            ctx.nontrivial(hash_str(path + route));
            return;
        }
    }
    if (ctx.want_desc) { ctx.desc = what + ": \"" + show(text, 1500) + "\""; }
    auto ref = schemaref::read(text);
    bool has_delims = !ref.delims.empty();
    std::string delims = has_delims ? ref.delims.back() : "";
    // which rule can contain a delimiter
    schemaref::Var const* bad_var = nullptr;
    if (ref.parse_ok() && has_delims) {
        for (auto const& v : ref.vars) {
            if (v.name == "timestamp") { continue; }
            auto s = schemaref::possible(*v.pat, delims);
            for (char d : delims) { if (s[static_cast<unsigned char>(d)]) { bad_var = &v; } }
            if (bad_var) { break; }
        }
    }
    std::string lead = "schema text";
    // ---- parse
    std::unique_ptr<ls::SchemaAST> ast;
    std::string err;
    bool threw = false;
    bool file = c.chance(1, 4);
    try {
        ast = file ? ls::SchemaParser::try_schema_file(sc.put("s", text)) : make_ast(text);
        if (!ast) { fail("no schema and no error returned"); }
    } catch (std::exception const& e) {
        if (dynamic_cast<Violation const*>(&e)) { throw; }
        threw = true;
        err = e.what();
        if (err.empty()) { fail("schema rejected with an empty error message"); }
    }
    if (threw && ref.parse_ok()) { fail("schema text follows the documented syntax but is rejected: " + show(err, 600)); }
    if (!threw && !ref.parse_ok()) {
        fail("schema text is accepted although it is wrong on line " + std::to_string(ref.err_line + 1)
             + (ref.bad_group ? " (bad bracket expression)" : "") + (ref.bad_delims ? " (bad delimiter)" : ""));
    }
    if (threw && !ref.syntax_ok && !ref.semantic_first) {
        auto p = "Schema:" + std::to_string(ref.err_line + 1) + ":";
        if (err.compare(0, p.size(), p) != 0) {
            fail("syntax error is on line " + std::to_string(ref.err_line + 1) + ", reported as: " + show(err.substr(0, 200), 200));
        }
        ctx.label("syntax errors with checked line");
    }
    if (threw) { ctx.label("rejected by the schema parser"); }
    // ---- add one rule to an existing schema
    if (ref.vars.size() <= 1 && c.chance(1, 3)) {
        ls::Schema sch;
        sch.add_variable("first:a", -1);
        bool t2 = false;
        try {
            sch.add_variable(text, static_cast<int>(c.draw(2)) - 1);
        } catch (std::exception const&) {
            t2 = true;
        }
        bool want = !ref.parse_ok() || ref.vars.empty();
        if (t2 != want) { fail(std::string("add_variable ") + (t2 ? "rejects" : "accepts") + " this text"); }
        auto a = sch.release_schema_ast_ptr();
        if (a->m_schema_vars.size() != (t2 ? 1u : 2u)) { fail("add_variable left " + std::to_string(a->m_schema_vars.size()) + " rules in the schema"); }
        ctx.label("add_variable calls");
    }
    // ---- build
    bool built = false;
    if (!threw) {
        size_t vars = ref.vars.size();
        if (ast->m_schema_vars.size() != vars) { fail(std::to_string(vars) + " rules written, " + std::to_string(ast->m_schema_vars.size()) + " parsed"); }
        if (!has_delims || bad_var || (ref.vars.size() < 30 && schemaref::small_dfa(ref, delims))) {
            std::unique_ptr<ls::ReaderParser> p;
            bool t3 = false;
            try {
                p = std::make_unique<ls::ReaderParser>(std::move(ast));
            } catch (std::exception const& e) {
                t3 = true;
                err = e.what();
                if (err.empty()) { fail("schema rejected with an empty error message"); }
            }
            if (!has_delims && !t3) { fail("a schema without delimiters is accepted"); }
            if (bad_var && !t3) { fail("variable \"" + bad_var->name + "\" can contain a delimiter but is accepted"); }
            if (has_delims && !bad_var && t3) { fail("a valid schema is rejected: " + show(err, 500)); }
            if (has_delims && bad_var) {
                auto p1 = ":" + std::to_string(bad_var->line + 1) + ": error: '" + bad_var->name + "'";
                if (err.find(p1) == std::string::npos) {
                    fail("variable \"" + bad_var->name + "\" on line " + std::to_string(bad_var->line + 1) + " can contain a delimiter, reported as: " + show(err, 300));
                }
                ctx.label("rejected: pattern contains delimiter");
            }
            if (!has_delims) { ctx.label("rejected: no delimiters"); }
            built = !t3;
            if (built) {
                ctx.label("accepted and built");
                bool ts_nl = ref.odd_rep || delims.find('\n') == std::string::npos;
                for (auto const& v : ref.vars) { ts_nl |= v.name == "timestamp" && rx::possible(*v.pat)['\n']; }
                if (!ts_nl) {
                    std::string in;
                    size_t n = c.draw(30);
                    for (size_t i = 0; i < n; ++i) {
                        if (!ref.vars.empty() && c.chance(1, 3)) { in += rx::sample(*ref.vars[c.draw(ref.vars.size())].pat, c, "ab01", 12); }
                        if (c.chance(1, 2)) { in += delims[c.draw(delims.size())]; }
                    }
                    in.erase(std::remove(in.begin(), in.end(), '\xFD'), in.end());
                    std::string all;
                    for (auto const& e : run_reader(*p, in, {})) { all += e.text; }
                    if (all != in) { fail("parser of this schema loses text: input \"" + show(in) + "\", events \"" + show(all) + "\""); }
                }
            }
        }
    }
    if (threw || (!built && !threw) || kind == 0) { ctx.nontrivial(hash_str(text)); }
    ctx.label(what);
    // ---- no effect on anything else
    canary().check(*canary().p, "parser built before the schema was read");
    if (c.chance(1, 4)) {
        auto q = canary().fresh();
        canary().check(*q, "parser of a good schema read afterwards");
    }
}
