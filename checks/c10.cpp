// C10: a schema text means exactly its rules, in order, at any size, by whatever route it reaches the parser.
#include <fstream>
#include <unistd.h>

#include "scenario.hpp"
using namespace sut;
pbt::PropInfo const pbt::g_info{
        "C10",
        "case = one random schema text: rules, 1-3 delimiters lines, comments (arbitrary bytes, rule-like and 'delimiters'-like text), "
        "blank lines, leading spaces, LF/CRLF mixes, with or without final newline, sometimes hundreds of rules / very long comments / "
        "very long patterns so that the text crosses the schema parser's buffers; checked (a) rule list: names, order, line numbers, "
        "patterns (equal to the rule parsed alone), delimiters in force, symbol ids; (b) parsers built from the string, a file, "
        "Schema + add_variable with priorities, ReaderParser/BufferParser/LogParser from a path must produce the events of the reference "
        "model; other (also broken) schemas are parsed in between. Non-trivial: at least two rules and one comment, blank line or CRLF, or a text larger than "
        "half a buffer.",
        60,
        4096
};
namespace {
struct Scratch {
    std::string dir;
    Scratch() {
        dir = work_dir() + "/c10-XXXXXX";
        if (!mkdtemp(dir.data())) { throw std::runtime_error("mkdtemp"); }
    }
    ~Scratch() {
        for (auto const& f : files) { unlink(f.c_str()); }
        rmdir(dir.c_str());
    }
    auto put(std::string const& name, std::string const& data) -> std::string {
        auto p = dir + "/" + name;
        std::ofstream o(p, std::ios::binary);
        o << data;
        o.close();
        files.push_back(p);
        return p;
    }
    std::vector<std::string> files;
};
struct Line {
    enum K { Rule, Delim, Comment, Blank } k;
    std::string text;
    size_t rule{0};
    std::string delims;
};
auto ser(ls::ParserAST* a) -> std::u32string {
    auto* v = dynamic_cast<ls::SchemaVarAST*>(a);
    return v->m_regex_ptr->serialize();
}
auto alone(std::string const& line) -> std::u32string {
    ls::Schema s;
    s.add_variable(line, -1);
    auto ast = s.release_schema_ast_ptr();
    if (ast->m_schema_vars.size() != 1) { fail("add_variable(\"" + show(line, 200) + "\") did not add one variable"); }
    return ser(ast->m_schema_vars[0].get());
}
auto gen_comment(Choices& c, size_t max) -> std::string {
    std::string t = "//";
    size_t n = 1 + c.skewed(max);
    static std::vector<std::string> const words{"delimiters", "delimiters: ", "var:abc", "// ", "timestamp:\\d", " ", "\t", "(", "\\", "[", "x", "<newLine>"};
    while (t.size() < 2 + n) {
        switch (c.draw(3)) {
            case 0: t += c.pick(words); break;
            case 1: t += static_cast<char>('a' + c.draw(26)); break;
            default: {
                char x = static_cast<char>(c.draw(256));
                if (x == '\n' || x == '\r') { x = '.'; }
                if (c.chance(1, 3) && n > 200) { t.append(c.draw(n), x); } else { t += x; }
            }
        }
    }
    return t;
}
void noise(Choices& c) {
    // other schemas parsed in between, broken ones included
    static std::vector<std::string> const others{
            "delimiters: \\n\nint:\\d+\n", "delimiters: \\n\nint:\\d+\nbad:(a\n", "x", "", "//c\n\n\nv:a|b\n", "v:[z-a]\n", "delimiters: \\n\nv:[a-z]{2,3}(?<q>a)|b\n"};
    auto const& t = c.pick(others);
    try {
        auto a = make_ast(t);
        if (c.chance(1, 2)) { ls::LogParser p(std::move(a)); }
    } catch (std::exception const&) {}
}
void check_ids(ls::LogParser const& lp, std::vector<std::string> const& names) {
    std::map<uint32_t, std::string> seen;
    for (auto const& n : names) {
        auto id = lp.get_symbol_id(n);
        if (!id) { fail("no id for variable name " + n); }
        if (lp.get_id_symbol(*id) != n) { fail("id of " + n + " maps back to " + lp.get_id_symbol(*id)); }
        if (seen.count(*id)) { fail("variables " + n + " and " + seen[*id] + " share an id"); }
        seen[*id] = n;
    }
    if (lp.get_symbol_id("noSuchVariable")) { fail("an id is reported for a name the schema does not have"); }
}
}  // namespace
void pbt::prop(Choices& c, Ctx& ctx) {
    size_t mode = c.weighted({10, 3, 2});  // normal, large, many parses
    model::SchemaOpt so;
    so.captures = c.chance(1, 4);
    so.max_vars = 6;
    so.many_rules = true;
    so.ts_first = false;
    auto s = model::gen_schema(c, so);
    // names: random alphanumerics, some repeated
    static std::string const an = "abcxyzdstrnfvABZ0159";
    for (auto& r : s.rules) {
        if (r.ts || c.chance(1, 3)) { continue; }
        std::string n;
        if (c.chance(1, 6)) {
            static std::vector<std::string> const heads{"timestamp", "Timestamp", "timestam", "delimiter", "Delimiters", "delim", "newline", "newlines", "int", "end"};
            n = c.pick(heads);
        }
        size_t k = (n.empty() ? 1 : c.draw(2)) + (c.chance(1, 8) ? c.skewed(200) : c.draw(9));
        for (size_t i = 0; i < k; ++i) { n += an[c.draw(an.size())]; }
        if (n == "timestamp" || n.find("delimiters") != std::string::npos) { n = "ts9"; }
        r.name = n;
    }
    std::vector<std::string> texts;
    for (size_t i = 0; i < s.rules.size(); ++i) { texts.push_back(s.rule_line(i)); }
    if (mode == 1) {
        // make it large: many rules, long patterns, long comments
        size_t extra = c.chance(1, 2) ? c.draw(cBuf > 4096 ? 400 : 120) : 0;
        for (size_t i = 0; i < extra; ++i) { texts.push_back("L" + std::to_string(i) + ":x" + std::to_string(i * 7919 % 1000) + (c.chance(1, 4) ? "[a-f]{1,3}" : "q")); }
        if (c.chance(1, 2)) {
            std::string p = "long:";
            size_t n = c.skewed(cBuf > 4096 ? 30000 : 2000);
            for (size_t i = 0; i <= n; ++i) { p += "abcdefgh"[i % 8]; }
            texts.insert(texts.begin() + static_cast<long>(c.draw(texts.size() + 1)), p);
        }
    }
    std::vector<Line> lines;
    std::string last_delims;
    auto delim_line = [&](std::string const& d) {
        std::string t = "delimiters:";
        for (char x : d) { t += rx::lit_text(static_cast<unsigned char>(x)); }
        last_delims = d;
        return t;
    };
    size_t nd = 1 + c.weighted({6, 2, 1});
    std::vector<size_t> dpos;
    for (size_t i = 0; i < nd; ++i) { dpos.push_back(c.draw(texts.size() + 1)); }
    if (c.chance(1, 2)) { dpos.back() = 0; }
    std::sort(dpos.begin(), dpos.end());
    size_t di = 0;
    size_t cmax = mode == 1 ? (c.chance(1, 2) ? 3 * cBuf : 300) : 40;
    for (size_t i = 0; i <= texts.size(); ++i) {
        while (di < nd && dpos[di] == i) {
            // the last one counts
            bool last = ++di == nd;
            auto d = last ? s.delims : model::gen_delims(c);
            lines.push_back({Line::Delim, delim_line(d), 0, d});
        }
        if (c.chance(1, 4)) { lines.push_back({Line::Comment, gen_comment(c, c.chance(1, 3) ? cmax : 30), 0, {}}); }
        if (!lines.empty() && c.chance(1, 4)) {
            size_t k = 1 + c.skewed(mode == 1 ? 300 : 3);
            if (mode == 1 && lines.size() < 60000 && c.chance(1, 300)) { k += 65536; }  // line numbers beyond 16 bits
            for (size_t j = 0; j < k; ++j) { lines.push_back({Line::Blank, "", 0, {}}); }
        }
        if (i < texts.size()) {
            std::string t = texts[i];
            if (c.chance(1, 5)) { t = std::string(1 + c.draw(4), ' ') + t; }
            lines.push_back({Line::Rule, t, i, {}});
        }
    }
    bool crlf_all = c.chance(1, 4), crlf_some = c.chance(1, 5);
    std::string text;
    bool deco = crlf_all || crlf_some;
    for (size_t i = 0; i < lines.size(); ++i) {
        text += lines[i].text;
        deco |= lines[i].k == Line::Comment || lines[i].k == Line::Blank;
        if (i + 1 == lines.size() && c.chance(1, 2)) { break; }
        text += crlf_all || (crlf_some && c.chance(1, 2)) ? "\r\n" : "\n";
    }
    if (ctx.want_desc) { ctx.desc = "schema text: \"" + show(text, 1200) + "\""; }
    if (c.chance(1, 3)) { noise(c); }
    auto check_ast = [&](ls::SchemaAST const& ast, std::string const& how) {
        if (ast.m_schema_vars.size() != texts.size()) {
            fail(how + ": " + std::to_string(texts.size()) + " rules written, " + std::to_string(ast.m_schema_vars.size()) + " parsed");
        }
        size_t k = 0, sampled = 0;
        for (size_t i = 0; i < lines.size(); ++i) {
            if (lines[i].k != Line::Rule) { continue; }
            auto* v = dynamic_cast<ls::SchemaVarAST*>(ast.m_schema_vars[k].get());
            auto const& t = texts[lines[i].rule];
            auto name = t.substr(0, t.find(':'));
            if (v == nullptr || v->m_name != name) {
                fail(how + ": rule " + std::to_string(k) + " is named \"" + (v ? show(v->m_name, 60) : "?") + "\", written \"" + name + "\"");
            }
            if (v->m_line_num != i) {
                fail(how + ": rule \"" + name + "\" is on line " + std::to_string(i) + " (from 0), reported " + std::to_string(v->m_line_num));
            }
            if (texts.size() < 12 || t.size() > 200 || (k % 37 == 0 && sampled < 10)) {
                ++sampled;
                if (ser(v) != alone(t)) { fail(how + ": pattern of rule \"" + show(t, 200) + "\" differs from the pattern parsed alone"); }
            }
            ++k;
        }
        if (ast.m_delimiters.size() != nd) { fail(how + ": " + std::to_string(nd) + " delimiters lines, " + std::to_string(ast.m_delimiters.size()) + " parsed"); }
        size_t q = 0;
        for (auto const& l : lines) {
            if (l.k != Line::Delim) { continue; }
            auto* d = dynamic_cast<ls::DelimiterStringAST*>(ast.m_delimiters[q++].get());
            std::string got(d->m_delimiters.begin(), d->m_delimiters.end());
            if (got != l.delims) { fail(how + ": delimiters \"" + show(got) + "\" parsed, \"" + show(l.delims) + "\" written"); }
        }
    };
    Scratch sc;
    bool file = c.chance(1, 2);
    // sometimes the same path held another text of the same length a moment ago
    auto near = [&] {
        auto other = text;
        static std::string const chars = "x7Q:\n";
        size_t k = 1 + c.draw(2);
        for (size_t i = 0; i < k; ++i) { other[c.draw(other.size())] = chars[c.draw(chars.size())]; }
        return other;
    };
    auto from_string = [&] {
        if (!c.chance(1, 4)) { return make_ast(text); }
        auto t = near();
        try {
            auto ast = ls::SchemaParser::try_schema_string(t);
        } catch (std::exception const&) {}
        std::copy(text.begin(), text.end(), t.begin());
        ctx.label("string reused for another text");
        return ls::SchemaParser::try_schema_string(t);
    };
    auto put = [&](std::string const& name) {
        if (c.chance(1, 4)) {
            auto other = near();
            try {
                auto ast = ls::SchemaParser::try_schema_file(sc.put(name, other));
            } catch (std::exception const&) {}
            ctx.label("path reused for another text");
        }
        return sc.put(name, text);
    };
    {
        auto ast = file ? ls::SchemaParser::try_schema_file(put("s.txt")) : from_string();
        check_ast(*ast, file ? "schema file" : "schema string");
    }
    if (mode == 2) {
        size_t k = 2 + c.draw(30);
        for (size_t i = 0; i < k; ++i) { noise(c); }
        check_ast(*make_ast(text), "after other schemas");
        ctx.label("schemas parsed after many others");
    }
    ctx.label("schema texts");
    if (text.size() > cBuf / 2) { ctx.label("texts larger than half a buffer"); }
    if ((texts.size() >= 2 && deco) || text.size() > cBuf / 2) { ctx.nontrivial(hash_str(text)); }
    if (texts.size() > s.rules.size()) { return; }  // too large to build its automaton quickly
    // behaviour through the different routes
    auto names = var_names(s);
    model::Parser mp(s);
    auto in = model::gen_log(c, s, {});
    auto want = run_model(mp, in, names);
    if (ctx.want_desc) { ctx.desc += " | input: \"" + show(in, 200) + "\""; }
    auto by_reader = [&](ls::ReaderParser& p, std::string const& how) {
        check_ids(p.get_log_parser(), names);
        compare(want, run_reader(p, in, names), All, how);
        ctx.label("behaviour compared: " + how);
    };
    auto by_buffer = [&](ls::BufferParser& p, std::string const& how) {
        check_ids(p.get_log_parser(), names);
        compare(want, run_buffer_whole(p, in, names), All, how);
        ctx.label("behaviour compared: " + how);
    };
    size_t routes = 1 + c.draw(3);
    for (size_t r = 0; r < routes; ++r) {
        switch (c.draw(6)) {
            case 0: { ls::ReaderParser p(from_string()); by_reader(p, "from string"); break; }
            case 1: { ls::ReaderParser p(put("r.txt")); by_reader(p, "reader parser from path"); break; }
            case 2: { ls::BufferParser p(put("b.txt")); by_buffer(p, "buffer parser from path"); break; }
            case 3: {
                ls::Schema sch(put("c.txt"));
                auto ast = sch.release_schema_ast_ptr();
                auto empty = sch.release_schema_ast_ptr();
                if (!empty || !empty->m_schema_vars.empty() || !empty->m_delimiters.empty()) { fail("schema is not empty after its rules were released"); }
                ls::BufferParser p(std::move(ast));
                by_buffer(p, "Schema object from path");
                break;
            }
            default: {
                // some rules in the file, the others added one by one at their positions
                std::vector<bool> in_file(s.rules.size());
                std::string part = "delimiters:";
                for (char x : s.delims) { part += rx::lit_text(static_cast<unsigned char>(x)); }
                std::vector<size_t> have, rest;
                for (size_t i = 0; i < s.rules.size(); ++i) {
                    in_file[i] = c.chance(1, 2);
                    if (in_file[i]) { part += "\n" + texts[i]; have.push_back(i); }
                    else { rest.push_back(i); }
                }
                for (size_t i = rest.size(); i > 1; --i) { std::swap(rest[i - 1], rest[c.draw(i)]); }
                ls::Schema sch(sc.put("p.txt", part));
                for (size_t i : rest) {
                    size_t pos = std::lower_bound(have.begin(), have.end(), i) - have.begin();
                    bool at_end = pos == have.size();
                    int prio = at_end && c.chance(1, 2) ? -1 : static_cast<int>(pos);
                    sch.add_variable(texts[i], prio);
                    have.insert(have.begin() + static_cast<long>(pos), i);
                }
                auto ast = sch.release_schema_ast_ptr();
                if (ast->m_schema_vars.size() != s.rules.size()) { fail("add_variable: wrong number of rules"); }
                for (size_t i = 0; i < s.rules.size(); ++i) {
                    auto* v = dynamic_cast<ls::SchemaVarAST*>(ast->m_schema_vars[i].get());
                    if (v->m_name != s.rules[i].name) { fail("add_variable: rule " + std::to_string(i) + " is " + v->m_name + " instead of " + s.rules[i].name); }
                }
                ls::ReaderParser p(std::move(ast));
                by_reader(p, "rules added one by one");
            }
        }
    }
}
