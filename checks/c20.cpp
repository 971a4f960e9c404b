// C20: what the library built is released with it. Repeating an episode must not leave more heap memory or open files behind.
#include <filesystem>
#include <fstream>
#include <sys/stat.h>
#include <unistd.h>

#include <log_surgeon/FileReader.hpp>
#include <log_surgeon/LALR1Parser.hpp>
#include <log_surgeon/Schema.hpp>

#include <log_surgeon/finite_automata/RegisterHandler.hpp>
#include <log_surgeon/finite_automata/UnicodeIntervalTree.hpp>

#include "automata.hpp"
#include "scenario.hpp"
using namespace sut;
pbt::PropInfo const pbt::g_info{
        "C20",
        "case = an episode of 1-4 steps planned in advance and run without the harness keeping anything: read a valid, damaged or unreadable "
        "schema from text or file; build reader/buffer parsers (or fail to); parse logs completely, abandon them, grow the buffers, fail in the "
        "reader, reset; keep, copy, move and drop deep copies of events; clone pattern trees, build automata, scan, intersect; generate grammars (refused ones "
        "too) and parse accepted and refused sentences; open files without closing them; fill and empty interval trees. Oracle: the number of allocated heap blocks (allocation hooks) "
        "and the number of open files do not grow from one repetition of the episode to the next. Non-trivial: the episode raises an exception or parses at least one event.",
        40,
        2048
};
namespace {
enum Kind { SchemaText, ReaderSteps, BufferSteps, Automata, Grammar, AddVariable, Files, Trees };
struct Step {
    Kind kind{SchemaText};
    std::string text;                // schema text
    std::vector<std::string> texts;  // patterns / rules / sentences
    std::vector<std::string> inputs;
    std::vector<size_t> n;           // one number per input and some spare ones
    ChunkPlan chunks;
    SplitPlan split;
    std::string path;
    int mode{0};
    auto num(size_t i) const -> size_t { return n.empty() ? 0 : n[i % n.size()]; }
};
struct Seen {
    size_t events{0}, thrown{0}, copies{0}, automata{0}, sentences{0};
};
auto open_files() -> size_t {
    size_t k = 0;
    for (auto const& e : std::filesystem::directory_iterator("/proc/self/fd")) { (void)e; ++k; }
    return k;
}
auto damage(Choices& c, std::string t) -> std::string {
    static std::vector<std::string> const v{"(", ")", "*", "+", "[", "]", "{", "}", "|", "\\", "(?<n>", "(?<", "[^", "{2", "\n", ":", "delimiters:", " ", "a", "\nv:a", "{3,1}", "\x80", "[z-a]", "\\q"};
    size_t n = 1 + c.draw(2);
    for (size_t i = 0; i < n; ++i) {
        size_t p = c.draw(t.size() + 1);
        switch (c.draw(3)) {
            case 0: t.insert(p, c.pick(v)); break;
            case 1: if (p < t.size()) { t.erase(p, 1); } break;
            default: if (p < t.size()) { t.replace(p, 1, c.pick(v)); }
        }
    }
    return t;
}
// huge repetitions and the like are other checks' business
auto tame(std::string const& t) -> bool {
    size_t run = 0;
    for (char ch : t) {
        run = ch >= '0' && ch <= '9' ? run + 1 : 0;
        if (run > 2 && t.find('{') != std::string::npos) { return false; }
    }
    return t.size() < 900;
}
using Lalr = log_surgeon::LALR1Parser<aut::NState, aut::DState>;
void add_grammar(Lalr& p, int which) {
    using log_surgeon::NonTerminal;
    using log_surgeon::ParserAST;
    auto val = [](NonTerminal*) -> std::unique_ptr<ParserAST> { return std::make_unique<log_surgeon::ParserValue<std::string>>(std::string(40, 'v')); };
    p.add_token("a", 'a');
    p.add_token("b", 'b');
    p.add_token("lp", '(');
    p.add_token("rp", ')');
    switch (which) {
        case 0:
            p.add_production("S", {"S", "T"}, val);
            p.add_production("S", {"T"}, val);
            p.add_production("T", {"lp", "S", "rp"}, val);
            p.add_production("T", {"lp", "rp"}, val);
            p.add_production("T", {"a"}, val);
            p.add_production("T", {"b"}, nullptr);
            break;
        case 1:
            p.add_production("S", {"a", "S", "b"}, val);
            p.add_production("S", {}, val);
            p.add_token_chain("word", "xyz");
            p.add_production("S", {"word", "lp", "rp"}, val);
            break;
        case 2:  // ambiguous: refused
            p.add_production("S", {"S", "S"}, val);
            p.add_production("S", {"a"}, val);
            p.add_production("S", {"b", "lp", "rp"}, val);
            break;
        default:  // reduce/reduce: refused
            p.add_production("S", {"A", "lp"}, val);
            p.add_production("S", {"B", "lp"}, val);
            p.add_production("S", {"rp"}, val);
            p.add_production("A", {"a", "b"}, val);
            p.add_production("B", {"a", "b"}, val);
    }
}
void keep_copy(std::vector<ls::LogEvent>& v, ls::LogEventView const& ev, size_t how) {
    if (ev.to_string().empty()) { return; }
    switch (how % 4) {
        case 0: v.push_back(ev.deep_copy()); break;
        case 1: v.emplace_back(ev); break;
        case 2: {
            auto a = ev.deep_copy();
            ls::LogEvent b(static_cast<ls::LogEventView const&>(a));
            v.push_back(std::move(b));
            break;
        }
        default: { auto a = ev.deep_copy(); }
    }
}
void run_step(Step const& s, Seen& seen) {
    switch (s.kind) {
        case SchemaText: {
            auto ast = s.path.empty() ? ls::SchemaParser::try_schema_string(s.text) : ls::SchemaParser::try_schema_file(s.path);
            if (s.mode == 1) { ls::ReaderParser p(std::move(ast)); }
            if (s.mode == 2) { ls::BufferParser p(std::move(ast)); }
            if (s.mode == 3) {
                auto first = std::move(ast);
                ast = ls::SchemaParser::try_schema_string(s.text);
            }
            break;
        }
        case ReaderSteps: {
            std::vector<ls::LogEvent> kept;
            ls::ReaderParser p(make_ast(s.text));
            for (size_t i = 0; i < s.inputs.size(); ++i) {
                Feed f;
                f.data = &s.inputs[i];
                f.chunk = s.chunks.fn();
                f.zero_eof = s.chunks.zero_eof;
                size_t n = s.num(i), stop = n % 3 == 0 ? n % 7 : 1000000;
                if (n % 5 == 1) { f.err_at_set = true; f.err_at = n % (s.inputs[i].size() + 1); }
                auto rd = f.reader();
                p.reset_and_set_reader(rd);
                for (size_t k = 0; !p.done() && k < stop; ++k) {
                    if (p.parse_next_event() != ls::ErrorCode::Success) { break; }
                    ++seen.events;
                    if (k < 4) { keep_copy(kept, p.get_log_parser().get_log_event_view(), n + k); }
                }
                if (n % 4 == 2) { kept.clear(); }
            }
            seen.copies += kept.size();
            break;
        }
        case BufferSteps: {
            std::vector<ls::LogEvent> kept;
            ls::BufferParser p(make_ast(s.text));
            for (size_t i = 0; i < s.inputs.size(); ++i) {
                size_t n = s.num(i), off = 0, calls = 0;
                auto buf = s.inputs[i];
                p.reset();
                bool fin = n % 3 != 0;
                while (!p.done() && calls++ < 50) {
                    if (p.parse_next_event(buf.data(), buf.size(), off, fin) != ls::ErrorCode::Success) {
                        if (n % 4 == 0) { break; }
                        fin = true;
                        continue;
                    }
                    ++seen.events;
                    if (calls < 5) { keep_copy(kept, p.get_log_parser().get_log_event_view(), n + calls); }
                }
            }
            seen.copies += kept.size();
            break;
        }
        case Automata: {
            auto trees = aut::asts_of(s.texts);
            aut::Lexer a, b;
            for (size_t i = 0; i < trees.size(); ++i) {
                std::unique_ptr<aut::Ast> copy(trees[i]->clone());
                if (s.num(i) % 2) { trees[i].reset(copy->clone()); }
                if (s.num(i) % 3) { a.add_rule(static_cast<uint32_t>(10 + i), std::move(copy)); }
                b.add_rule(static_cast<uint32_t>(3 + i), std::move(trees[i]));
            }
            if (s.mode & 1) { b.add_rule(2, std::unique_ptr<aut::Ast>(std::make_unique<ls::finite_automata::RegexASTLiteral<aut::NState>>('z'))); }
            a.generate();
            b.generate();
            if (s.mode & 2) { b.generate(); }
            seen.automata += 2;
            (void)a.get_dfa()->get_intersect(b.get_dfa());
            (void)b.get_dfa()->get_intersect(b.get_dfa());
            aut::Nfa nfa([&] {
                std::vector<aut::Rule> rules;
                for (auto& t : aut::asts_of(s.texts)) { rules.emplace_back(static_cast<uint32_t>(rules.size()), std::move(t)); }
                return rules;
            }());
            (void)nfa.serialize();
            ls::ParserInputBuffer ib;
            ls::Token t;
            for (auto in : s.inputs) {
                ib.reset();
                b.reset();
                ib.set_storage(in.data(), static_cast<uint32_t>(in.size()), 0, true);
                for (size_t k = 0; k < in.size() + 1; ++k) {
                    if (b.scan(ib, t) != ls::ErrorCode::Success) { break; }
                    if (t.m_type_ids_ptr && t.m_type_ids_ptr->at(0) == static_cast<uint32_t>(ls::SymbolId::TokenEnd)) { break; }
                }
            }
            break;
        }
        case Grammar: {
            Lalr p;
            add_grammar(p, s.mode);
            p.generate();
            for (size_t i = 0; i < s.inputs.size(); ++i) {
                Feed f;
                f.data = &s.inputs[i];
                f.chunk = s.chunks.fn();
                if (s.num(i) % 5 == 1) { f.err_at_set = true; f.err_at = s.num(i) % (s.inputs[i].size() + 1); }
                auto rd = f.reader();
                ++seen.sentences;
                try {
                    auto nt = p.parse(rd);
                    (void)nt;
                } catch (std::exception const&) { ++seen.thrown; }
            }
            break;
        }
        case AddVariable: {
            ls::Schema sch;
            for (size_t i = 0; i < s.texts.size(); ++i) {
                try {
                    sch.add_variable(s.texts[i], s.num(i) % 2 ? -1 : 0);
                } catch (std::exception const&) { ++seen.thrown; }
            }
            auto ast = sch.release_schema_ast_ptr();
            if (s.mode == 1) { ls::ReaderParser p(std::move(ast)); }
            break;
        }
        case Files: {
            ls::FileReader fr;
            std::string line;
            char buf[200];
            for (size_t i = 0; i < 4; ++i) {
                size_t n = s.num(i), got = 0;
                auto e = fr.try_open(n % 4 == 0 ? s.path + ".missing" : s.path);
                if (e != ls::ErrorCode::Success) { continue; }
                if (n % 3 == 0) { (void)fr.read(buf, 1 + n % 200, got); }
                if (n % 3 == 1) { while (fr.try_read_to_delimiter('\n', n % 2 == 0, n % 5 == 0, line) == ls::ErrorCode::Success) {} }
                if (n % 7 == 3) { fr.close(); }
            }
            break;
        }
        case Trees: {
            namespace fa = ls::finite_automata;
            fa::UnicodeIntervalTree<std::string> t;
            fa::RegisterHandler h;
            h.add_register(0, 1);
            for (size_t i = 0; i < 60; ++i) {
                uint32_t lo = static_cast<uint32_t>((s.num(i) * 7 + i * i * 13) % 300), hi = lo + static_cast<uint32_t>(s.num(i + 1) % 30);
                if ((s.num(i) + i) % 5 == 0) { (void)t.pop({lo, hi}); }
                else if ((s.num(i) + i) % 7 == 0) { (void)t.find({lo, hi}); }
                else { t.insert({lo, hi}, std::string(50, 'x')); }
                h.append_position(0, static_cast<int>(i));
                if (i == 50 && s.mode == 1) { t.reset(); }
            }
            (void)h.get_reversed_positions(0);
            try { (void)h.get_reversed_positions(77); } catch (std::exception const&) { ++seen.thrown; }
            break;
        }
    }
}
void run(std::vector<Step> const& plan, Seen& seen) {
    for (auto const& s : plan) {
        try {
            run_step(s, seen);
        } catch (pbt::Violation const&) {
            throw;
        } catch (std::exception const&) { ++seen.thrown; }
    }
}
struct Scratch {
    std::string dir;
    std::vector<std::string> files;
    Scratch() {
        dir = work_dir() + "/c20-XXXXXX";
        if (!mkdtemp(dir.data())) { throw std::runtime_error("mkdtemp"); }
    }
    ~Scratch() {
        for (auto const& f : files) { unlink(f.c_str()); }
        rmdir(dir.c_str());
    }
    auto put(std::string const& data) -> std::string {
        auto p = dir + "/f" + std::to_string(files.size());
        std::ofstream o(p, std::ios::binary);
        o << data;
        files.push_back(p);
        return p;
    }
};
// whatever the library sets up once and keeps (function-local statics, stdio and locale caches)
auto warm_up() -> bool {
    Scratch sc;
    std::vector<Step> plan;
    Step s;
    std::string const schema = "delimiters: \\n,\ntimestamp:\\d\\d:\\d\\d\nint:\\d+\nkv:(?<k>k+)=[0-9]{1,3}\n", log = "12:30 a 1,2 kk=12\nx\n\n12:31 ,5";
    std::string big;
    while (big.size() < 3 * cBuf) { big += "kkkkkkkkkkkkkkkkk"; }
    for (std::string t : {schema, schema + "bad:(", schema + "bad: ,", std::string("a:b\n")}) {
        for (int m = 0; m < 4; ++m) {
            s = {};
            s.text = t;
            s.mode = m;
            plan.push_back(s);
            s.path = sc.put(t);
            plan.push_back(s);
            s.path += ".missing";
            plan.push_back(s);
        }
    }
    for (Kind k : {ReaderSteps, BufferSteps}) {
        s = {};
        s.kind = k;
        s.text = schema;
        s.inputs = {log, log, big + log, log, log, log};
        s.n = {4, 7, 2, 6, 9, 12};
        plan.push_back(s);
    }
    for (int m = 0; m < 4; ++m) {
        s = {};
        s.kind = Automata;
        s.mode = m;
        s.texts = {"a(?<x>b|c)*", "[0-9]{2,3}", "[^ab]+"};
        s.inputs = {"abccb12", "zz"};
        s.n = {1, 2, 3};
        plan.push_back(s);
        s.kind = Grammar;
        s.inputs = {"a(b)", "((", "aabb", "xyz()"};
        plan.push_back(s);
    }
    s = {};
    s.kind = AddVariable;
    s.texts = {"v:a", "v:(", "delimiters: \\n"};
    s.n = {0, 1};
    plan.push_back(s);
    s.mode = 1;
    plan.push_back(s);
    s = {};
    s.kind = Files;
    s.path = sc.put("a\nb\nc");
    s.n = {4, 3, 1, 10};
    plan.push_back(s);
    Seen seen;
    run(plan, seen);
    (void)open_files();
    return true;
}
}  // namespace
void pbt::prop(Choices& c, Ctx& ctx) {
    static bool const warm = warm_up();
    (void)warm;
    Scratch sc;
    std::vector<Step> plan;
    size_t steps = 1 + c.draw(4);
    for (size_t i = 0; i < steps; ++i) {
        Step s;
        s.kind = static_cast<Kind>(c.weighted({4, 4, 3, 3, 2, 2, 1, 1}));
        model::SchemaOpt so;
        so.captures = c.chance(1, 2);
        so.nullable = s.kind == SchemaText;
        so.max_weight = 12;
        so.max_vars = 4;
        std::string what;
        size_t spare = 1 + c.draw(4);
        for (size_t k = 0; k < spare; ++k) { s.n.push_back(c.draw(420)); }
        switch (s.kind) {
            case SchemaText: {
                auto sch = model::gen_schema(c, so);
                s.text = sch.text();
                switch (c.weighted({2, 5, 2, 1})) {
                    case 0: break;
                    case 1: s.text = damage(c, s.text); break;
                    case 2: s.text += (s.text.empty() || s.text.back() == '\n' ? "" : "\n") + std::string("bad:x") + sch.delims[c.draw(sch.delims.size())] + "+\n"; break;
                    default: s.text = s.text.substr(s.text.find('\n') == std::string::npos ? 0 : s.text.find('\n'));
                }
                if (!tame(s.text)) { throw Discard{}; }
                s.mode = static_cast<int>(c.draw(4));
                if (c.chance(1, 4)) { s.path = sc.put(s.text) + (c.chance(1, 4) ? ".missing" : ""); }
                what = "schema \"" + show(s.text, 300) + "\" mode " + std::to_string(s.mode) + (s.path.empty() ? "" : " from a file");
                break;
            }
            case ReaderSteps:
            case BufferSteps: {
                auto sch = model::gen_schema(c, so);
                s.text = sch.text();
                size_t k = 1 + c.draw(8);
                for (size_t j = 0; j < k; ++j) {
                    model::LogOpt lo;
                    lo.ts_bias = c.chance(1, 2);
                    s.inputs.push_back(model::gen_log(c, sch, lo));
                    if (c.chance(1, 6)) {
                        std::string u = c.chance(1, 2) ? "a" : "a" + std::string(1, sch.delims.back()), r;
                        size_t len = c.draw(cBuf * 3);
                        while (r.size() < len) { r += u; }
                        s.inputs.back() += r;
                    }
                }
                s.n.resize(std::max(s.n.size(), k), 2);
                s.chunks = gen_chunks(c);
                what = std::string(s.kind == ReaderSteps ? "reader" : "buffer") + " parser of \"" + show(s.text, 200) + "\" on";
                for (auto const& in : s.inputs) { what += " \"" + show(in, 60) + "\""; }
                break;
            }
            case Automata: {
                int caps = 0;
                rx::GenOpt g;
                g.alphabet = "abc01-";
                g.captures = true;
                g.cap_counter = &caps;
                g.max_weight = 14;
                g.space = true;
                size_t k = 1 + c.draw(4);
                for (size_t j = 0; j < k; ++j) {
                    auto p = rx::gen_pattern(c, g, 1 + static_cast<int>(c.draw(4)));
                    s.texts.push_back(rx::print(*p));
                    s.inputs.push_back(rx::sample(*p, c, g.alphabet, 10) + rx::sample(*p, c, g.alphabet, 10) + (c.chance(1, 3) ? "\x01?" : ""));
                }
                s.mode = static_cast<int>(c.draw(4));
                what = "automata of";
                for (auto const& t : s.texts) { what += " " + t; }
                break;
            }
            case Grammar: {
                s.mode = static_cast<int>(c.draw(4));
                size_t k = 1 + c.draw(5);
                for (size_t j = 0; j < k; ++j) {
                    std::string in;
                    size_t m = c.draw(c.chance(1, 6) ? 60 : 8);
                    switch (c.draw(3)) {
                        case 0: in = std::string(m, '(') + std::string(m + (c.chance(1, 3) ? 1 : 0), ')'); break;
                        case 1: in = std::string(m, 'a') + std::string(m, 'b'); break;
                        default: for (size_t q = 0; q < m; ++q) { in += "ab()xyz"[c.draw(7)]; }
                    }
                    s.inputs.push_back(in);
                }
                s.chunks = gen_chunks(c);
                what = "grammar " + std::to_string(s.mode) + " on";
                for (auto const& in : s.inputs) { what += " \"" + show(in, 60) + "\""; }
                break;
            }
            case AddVariable: {
                auto sch = model::gen_schema(c, so);
                for (size_t j = 0; j < sch.rules.size(); ++j) {
                    auto t = sch.rule_line(j);
                    s.texts.push_back(c.chance(1, 2) ? damage(c, t) : t);
                    if (!tame(s.texts.back())) { throw Discard{}; }
                }
                if (c.chance(1, 2)) { s.texts.push_back(sch.delim_line()); }
                s.mode = static_cast<int>(c.draw(2));
                what = "add_variable";
                for (auto const& t : s.texts) { what += " \"" + show(t, 80) + "\""; }
                break;
            }
            case Trees: s.mode = static_cast<int>(c.draw(2)); what = "interval tree"; for (auto x : s.n) { what += " " + std::to_string(x); } break;
            default: {
                std::string data;
                size_t m = c.skewed(3000);
                for (size_t j = 0; j < m; ++j) { data += "ab\n"[c.draw(3)]; }
                s.path = sc.put(data);
                what = "file of " + std::to_string(m) + " bytes";
                for (auto x : s.n) { what += " " + std::to_string(x); }
            }
        }
        if (ctx.want_desc) { ctx.desc += (ctx.desc.empty() ? "" : " | ") + what; }
        plan.push_back(std::move(s));
    }
    Seen seen;
    auto files = open_files();
    // the schema parser keeps the nodes of the last schemas it read until they are overwritten: what an episode leaves behind must not grow
    // when it is repeated
    run(plan, seen);
    run(plan, seen);
    seen = {};
    auto before = live_blocks();
    run(plan, seen);
    auto middle = live_blocks();
    run(plan, seen);
    auto after = live_blocks();
    auto files2 = open_files();
    if (after > before || middle > before) {
        fail("every repetition of the episode leaves " + std::to_string(static_cast<int64_t>(after - before) / 2) + " heap blocks allocated although everything has been destroyed");
    }
    if (files2 != files) { fail(std::to_string(files) + " files open before, " + std::to_string(files2) + " after everything was destroyed"); }
    if (seen.thrown) { ctx.label("episodes with exceptions"); }
    if (seen.events) { ctx.label("episodes with parsed events"); }
    if (seen.copies) { ctx.label("episodes with kept copies"); }
    if (seen.automata) { ctx.label("episodes with automata"); }
    if (seen.sentences) { ctx.label("episodes with grammars"); }
    if (seen.thrown || seen.events) {
        uint64_t h = 0;
        for (auto const& s : plan) {
            h = hash_str(s.text, h + 1);
            for (auto const& t : s.texts) { h = hash_str(t, h + 2); }
            for (auto const& t : s.inputs) { h = hash_str(t, h + 3); }
        }
        ctx.nontrivial(h);
    }
}
