// Drives the real parsers and turns their results into comparable observations.
#pragma once
#include <cstring>

#include <log_surgeon/BufferParser.hpp>
#include <log_surgeon/Constants.hpp>
#include <log_surgeon/LogEvent.hpp>
#include <log_surgeon/LogParser.hpp>
#include <log_surgeon/Reader.hpp>
#include <log_surgeon/ReaderParser.hpp>
#include <log_surgeon/Schema.hpp>
#include <log_surgeon/SchemaParser.hpp>

#include "model.hpp"

namespace sut {
namespace ls = log_surgeon;
using namespace pbt;
struct Tok {
    std::string text;
    std::vector<std::string> names;
    auto operator==(Tok const&) const -> bool = default;
};
struct Event {
    std::string text;
    bool has_ts{false};
    std::string ts;
    bool multiline{false};
    std::string logtype;
    std::vector<Tok> toks;
    std::map<std::string, std::vector<std::string>> vars;
    auto operator==(Event const&) const -> bool = default;
};
inline auto type_names(ls::LogParser const& lp, std::vector<uint32_t> const& ids) -> std::vector<std::string> {
    std::vector<std::string> r;
    for (auto id : ids) {
        auto n = lp.get_id_symbol(id);
        if (n == "firstTimestamp" || n == "newLineTimestamp") { n = "#ts"; }
        if (std::find(r.begin(), r.end(), n) == r.end()) { r.push_back(n); }
    }
    return r;
}
// var_names: the types to query through get_variables
inline auto observe(ls::LogEventView const& v, std::vector<std::string> const& var_names) -> Event {
    Event e;
    auto const& lp = v.get_log_parser();
    auto const& ob = *v.get_log_output_buffer();
    // reading must not change what is read later: the order of the four parts depends on the event
    for (uint32_t part = 0; part < 4; ++part) {
        switch ((part + ob.pos()) % 4) {
            case 0: {
                e.text = v.to_string();
                if (auto* t = v.get_timestamp()) {
                    e.has_ts = true;
                    e.ts = t->to_string();
                    if (e.ts != std::string(t->to_string_view())) { pbt::fail("Token::to_string and to_string_view differ"); }
                }
                e.multiline = v.is_multiline();
                break;
            }
            case 1: {
                for (uint32_t i = ob.has_timestamp() ? 0 : 1; i < ob.pos(); ++i) {
                    auto& t = ob.get_mutable_token(i);
                    Tok k;
                    k.text = std::string(t.to_string_view());
                    if (t.get_length() != k.text.size()) { pbt::fail("Token::get_length differs from its text"); }
                    k.names = type_names(lp, *t.m_type_ids_ptr);
                    if (!k.text.empty()) {
                        if (t.get_delimiter() != k.text.substr(0, 1)) { pbt::fail("Token::get_delimiter is not the token's first character"); }
                        size_t j = k.text.size() > 1 ? k.text.size() / 2 : 0;
                        for (size_t q : {size_t{0}, j, k.text.size() - 1}) {
                            if (q < 256 && t.get_char(static_cast<uint8_t>(q)) != k.text[q]) {
                                pbt::fail("Token::get_char(" + std::to_string(q) + ") differs from the token's text \"" + pbt::show(k.text, 60) + "\"");
                            }
                        }
                    }
                    e.toks.push_back(std::move(k));
                }
                break;
            }
            case 2: {
                e.logtype = v.get_logtype();
                break;
            }
            default: {
                for (auto const& n : var_names) {
                    auto id = lp.get_symbol_id(n);
                    if (!id) { pbt::fail("no symbol id for schema variable " + n); }
                    auto& dst = e.vars[n];
                    for (auto* t : v.get_variables(*id)) { dst.emplace_back(t->to_string_view()); }
                }
                break;
            }
        }
    }
    if (e.text != v.to_string()) { pbt::fail("LogEventView::to_string is not repeatable"); }
    if (e.logtype != v.get_logtype()) { pbt::fail("LogEventView::get_logtype is not repeatable"); }
    // the texts of all tokens are there at the same time
    {
        uint32_t start = ob.has_timestamp() ? 0 : 1;
        std::vector<std::string_view> views;
        for (uint32_t i = start; i < ob.pos(); ++i) { views.push_back(ob.get_mutable_token(i).to_string_view()); }
        for (size_t i = 0; i < views.size(); ++i) {
            if (views[i] != e.toks[i].text) { pbt::fail("the text of token " + std::to_string(i) + " changes when those of others are asked for: \"" + pbt::show(e.toks[i].text, 60) + "\", then \"" + pbt::show(std::string(views[i]), 60) + "\""); }
        }
        for (uint32_t i = start; i < ob.pos(); ++i) {
            if (ob.get_mutable_token(i).to_string() != e.toks[i - start].text) { pbt::fail("Token::to_string differs from Token::to_string_view"); }
        }
    }
    return e;
}
inline auto var_names(model::Schema const& s) -> std::vector<std::string> {
    std::vector<std::string> r;
    for (auto const& u : s.rules) {
        if (!u.ts && std::find(r.begin(), r.end(), u.name) == r.end()) { r.push_back(u.name); }
    }
    return r;
}
inline auto expect(model::Event const& m, std::vector<std::string> const& names) -> Event {
    Event e{m.text, m.has_ts, m.ts, m.multiline, m.logtype, {}, {}};
    for (auto const& n : names) { e.vars[n]; }
    for (size_t i = 0; i < m.toks.size(); ++i) {
        auto const& t = m.toks[i];
        Tok k{t.text, t.names};
        if (t.t == model::T::Uncaught) { k.names = {"$UncaughtString"}; }
        if (t.t == model::T::NewLine) { k.names = {"newLine"}; }
        if (t.t == model::T::Var) { e.vars[t.names[0]].push_back(t.text); }
        e.toks.push_back(std::move(k));
    }
    return e;
}
inline auto join(std::vector<std::string> const& v) -> std::string {
    std::string o;
    for (auto const& x : v) { o += (o.empty() ? "" : ",") + pbt::show(x, 60); }
    return o;
}
using pbt::show;
inline auto show(Event const& e) -> std::string {
    std::string o = "event{text=\"" + pbt::show(e.text, 200) + "\"";
    if (e.has_ts) { o += " ts=\"" + pbt::show(e.ts, 60) + "\""; }
    if (e.multiline) { o += " multiline"; }
    o += " logtype=\"" + pbt::show(e.logtype, 200) + "\" tokens=";
    size_t n = 0;
    for (auto const& t : e.toks) {
        if (++n > 12) { o += "..."; break; }
        o += "[" + pbt::show(t.text, 40) + ":" + join(t.names) + "]";
    }
    o += " vars=";
    for (auto const& [k, v] : e.vars) { if (!v.empty()) { o += k + "(" + join(v) + ")"; } }
    return o + "}";
}
enum Field : unsigned { Text = 1, Ts = 2, Multi = 4, Logtype = 8, Toks = 16, Vars = 32, All = 63 };
inline auto diff(Event const& a, Event const& b, unsigned f) -> std::string {
    if ((f & Text) && a.text != b.text) { return "text"; }
    if ((f & Ts) && (a.has_ts != b.has_ts || a.ts != b.ts)) { return "timestamp"; }
    if ((f & Multi) && a.multiline != b.multiline) { return "multiline flag"; }
    if ((f & Logtype) && a.logtype != b.logtype) { return "log type"; }
    if ((f & Toks) && a.toks != b.toks) { return "tokens"; }
    if ((f & Vars) && a.vars != b.vars) { return "variables"; }
    return "";
}
// fails with a message when the two sequences differ
inline void compare(std::vector<Event> const& want, std::vector<Event> const& got, unsigned f, std::string const& what) {
    for (size_t i = 0; i < want.size() || i < got.size(); ++i) {
        if (i >= got.size()) {
            pbt::fail(what + ": event " + std::to_string(i) + " missing; expected " + show(want[i]));
        }
        if (i >= want.size()) {
            pbt::fail(what + ": unexpected extra event " + std::to_string(i) + " " + show(got[i]));
        }
        auto d = diff(want[i], got[i], f);
        if (!d.empty()) {
            pbt::fail(what + ": event " + std::to_string(i) + " differs in its " + d + "\n  expected " + show(want[i])
                      + "\n  got      " + show(got[i]));
        }
    }
}
inline auto run_model(model::Parser& mp, std::string const& in, std::vector<std::string> const& names) -> std::vector<Event> {
    std::vector<Event> r;
    for (auto const& e : mp.parse(in)) { r.push_back(expect(e, names)); }
    return r;
}

// ---- reader front end
struct Feed {
    std::string const* data{nullptr};
    size_t pos{0};
    // number of bytes to return for a request; must be in [1, want] (want <= remaining)
    std::function<size_t(size_t)> chunk;
    char junk{'7'};
    bool zero_eof{false};  // the end is reported by Success with 0 bytes instead of EndOfFile
    bool err_at_set{false};
    size_t err_at{0};
    ls::ErrorCode err_code{ls::ErrorCode::Errno};
    size_t calls{0};
    auto reader() -> ls::Reader {
        ls::Reader r;
        r.read = [this](char* dst, size_t want, size_t& got) -> ls::ErrorCode {
            ++calls;
            got = 0;
            if (err_at_set && pos >= err_at) { return err_code; }
            size_t left = data->size() - pos;
            if (left == 0 || want == 0) { return zero_eof ? ls::ErrorCode::Success : ls::ErrorCode::EndOfFile; }
            size_t n = std::min(left, want);
            if (chunk) { n = chunk(n); }
            if (err_at_set && pos + n > err_at) { n = err_at - pos; }
            if (n == 0) { return err_code; }
            if (want > n) {
                // the rest of what was offered belongs to the reader too: leave junk in it
                size_t rest = want - n, k = std::min<size_t>(rest, 48);
                std::memset(dst + n, junk, k);
                std::memset(dst + want - std::min<size_t>(rest, 16), junk, std::min<size_t>(rest, 16));
            }
            std::memcpy(dst, data->data() + pos, n);
            pos += n;
            got = n;
            return ls::ErrorCode::Success;
        };
        return r;
    }
};
inline auto make_ast(std::string const& text) { return ls::SchemaParser::try_schema_string(text); }

inline void drop_empty_tail(std::vector<Event>& r) {
    if (!r.empty() && r.back().text.empty()) { r.pop_back(); }
}
// parse everything the reader delivers; error code other than Success ends the run
inline auto run_reader(
        ls::ReaderParser& p,
        ls::Reader& rd,
        size_t max_events,
        std::vector<std::string> const& names,
        ls::ErrorCode* err = nullptr
) -> std::vector<Event> {
    std::vector<Event> r;
    p.reset_and_set_reader(rd);
    if (p.done()) { pbt::fail("done() right after reset_and_set_reader"); }
    while (!p.done()) {
        auto e = p.parse_next_event();
        if (e != ls::ErrorCode::Success) {
            if (err) { *err = e; return r; }
            pbt::fail("parse_next_event returned error " + std::to_string(static_cast<int>(e)));
        }
        r.push_back(observe(p.get_log_parser().get_log_event_view(), names));
        if (r.size() > max_events) { pbt::fail("parser does not finish: more events than input bytes"); }
    }
    drop_empty_tail(r);
    return r;
}
inline auto run_reader(ls::ReaderParser& p, std::string const& in, std::vector<std::string> const& names)
        -> std::vector<Event> {
    Feed f;
    f.data = &in;
    auto rd = f.reader();
    return run_reader(p, rd, in.size() + 2, names);
}
// ---- buffer front end: whole input at once, from an exactly sized heap block
inline auto run_buffer_whole(ls::BufferParser& p, std::string const& in, std::vector<std::string> const& names)
        -> std::vector<Event> {
    std::vector<Event> r;
    std::unique_ptr<char[]> buf(new char[in.size()]);
    std::memcpy(buf.get(), in.data(), in.size());
    p.reset();
    size_t off = 0;
    while (!p.done()) {
        auto e = p.parse_next_event(buf.get(), in.size(), off, true);
        if (e != ls::ErrorCode::Success) {
            pbt::fail("BufferParser::parse_next_event returned error " + std::to_string(static_cast<int>(e)) + " on finished input");
        }
        r.push_back(observe(p.get_log_parser().get_log_event_view(), names));
        if (r.size() > in.size() + 2) { pbt::fail("parser does not finish: more events than input bytes"); }
    }
    if (std::memcmp(buf.get(), in.data(), in.size()) != 0) { pbt::fail("the parser modified the caller's buffer"); }
    drop_empty_tail(r);
    return r;
}
}  // namespace sut
