// Builds the library's own automata from patterns.
#pragma once
#include <array>
#include <cstdio>
#include <map>
#include <memory>
#include <set>
#include <stack>
#include <vector>

#include "sut.hpp"

#include <log_surgeon/Constants.hpp>
#include <log_surgeon/finite_automata/RegexAST.hpp>
#include <log_surgeon/finite_automata/RegexDFA.hpp>
#include <log_surgeon/finite_automata/RegexNFA.hpp>
#include <log_surgeon/Lexer.hpp>
#include <log_surgeon/Schema.hpp>

namespace aut {
namespace ls = log_surgeon;
using NState = ls::finite_automata::RegexNFAByteState;
using DState = ls::finite_automata::RegexDFAByteState;
using Ast = ls::finite_automata::RegexAST<NState>;
using Nfa = ls::finite_automata::RegexNFA<NState>;
using Lexer = ls::Lexer<NState, DState>;
using Rule = ls::LexicalRule<NState>;
inline auto ast_of(std::string const& pattern) -> std::unique_ptr<Ast> {
    ls::Schema s;
    s.add_variable("v:" + pattern, -1);
    auto ast = s.release_schema_ast_ptr();
    return std::move(dynamic_cast<ls::SchemaVarAST&>(*ast->m_schema_vars.at(0)).m_regex_ptr);
}
// several trees from one schema parse (constructing the schema parser is the slow part)
inline auto asts_of(std::vector<std::string> const& patterns) -> std::vector<std::unique_ptr<Ast>> {
    std::string text;
    for (auto const& p : patterns) { text += "v:" + p + "\n"; }
    auto ast = ls::SchemaParser::try_schema_string(text);
    std::vector<std::unique_ptr<Ast>> r;
    for (auto& v : ast->m_schema_vars) { r.push_back(std::move(dynamic_cast<ls::SchemaVarAST&>(*v).m_regex_ptr)); }
    if (r.size() != patterns.size()) { pbt::fail("a schema of " + std::to_string(patterns.size()) + " rules yields " + std::to_string(r.size())); }
    return r;
}
inline auto ast_of(rx::Node const& n) -> std::unique_ptr<Ast> { return ast_of(rx::print(n)); }
// the same tree built through the API of the tree classes, without any pattern text
inline auto build(rx::Node const& n) -> std::unique_ptr<Ast> {
    namespace fa = ls::finite_automata;
    using rx::K;
    auto mult = [&](uint32_t lo, uint32_t hi) { return std::make_unique<fa::RegexASTMultiplication<NState>>(build(*n.a), lo, hi); };
    auto maybe = [&](std::unique_ptr<Ast> x) {
        return std::make_unique<fa::RegexASTOr<NState>>(std::make_unique<fa::RegexASTEmpty<NState>>(), std::move(x));
    };
    switch (n.k) {
        case K::Lit:
            for (uint32_t i = 0; i < 256; ++i) { if (n.set[i]) { return std::make_unique<fa::RegexASTLiteral<NState>>(i); } }
            break;
        case K::Dot: case K::Digit: case K::Space: case K::Group: {
            std::unique_ptr<fa::RegexASTGroup<NState>> g;
            for (uint32_t i = 0; i < 256; ++i) {
                if (!n.set[i]) { continue; }
                uint32_t j = i;
                while (j < 255 && n.set[j + 1]) { ++j; }
                if (!g) { g = std::make_unique<fa::RegexASTGroup<NState>>(i, j); }
                else if (i == j) { g->add_literal(i); }
                else { g->add_range(i, j); }
                i = j;
            }
            return g;
        }
        case K::Cat: return std::make_unique<fa::RegexASTCat<NState>>(build(*n.a), build(*n.b));
        case K::Or: return std::make_unique<fa::RegexASTOr<NState>>(build(*n.a), build(*n.b));
        case K::Star: return maybe(mult(1, 0));
        case K::Plus: return mult(1, 0);
        case K::Rep: {
            auto lo = static_cast<uint32_t>(n.lo), hi = static_cast<uint32_t>(n.hi);
            if (hi == 0) { return std::make_unique<fa::RegexASTEmpty<NState>>(); }
            if (lo == 0) { return maybe(mult(1, hi)); }
            return mult(lo, hi);
        }
        case K::Cap: return std::make_unique<fa::RegexASTCapture<NState>>(build(*n.a), std::make_unique<fa::Tag>(n.name));
    }
    throw std::runtime_error("pattern tree that cannot be built");
}
// a renaming of the byte values that takes some letters to bytes that cannot be written in a schema
inline auto gen_renaming(pbt::Choices& c, std::string const& letters) -> std::array<uint8_t, 256> {
    std::array<uint8_t, 256> r{};
    for (size_t i = 0; i < 256; ++i) { r[i] = static_cast<uint8_t>(i); }
    static std::array<uint8_t, 12> const odd{0, 1, 0x7f, 0x80, 0x81, 0xbf, 0xc0, 0xfc, 0xfd, 0xfe, 0xff, 0x20};
    for (unsigned char x : letters) {
        if (c.chance(1, 4)) { continue; }
        auto y = c.chance(2, 3) ? odd[c.draw(odd.size())] : static_cast<uint8_t>(c.draw(256));
        std::swap(r[x], r[y]);
    }
    return r;
}
inline auto rename(rx::P const& n, std::array<uint8_t, 256> const& r) -> rx::P {
    if (!n) { return n; }
    auto m = std::make_shared<rx::Node>(*n);
    if (rx::is_leaf(*n)) {
        m->set.reset();
        for (size_t i = 0; i < 256; ++i) { if (n->set[i]) { m->set.set(r[i]); } }
        m->text = "<";
        for (size_t i = 0; i < 256; ++i) {
            if (!m->set[i]) { continue; }
            size_t j = i;
            while (j < 255 && m->set[j + 1]) { ++j; }
            char t[16];
            snprintf(t, sizeof t, i == j ? "%02zx" : "%02zx-%02zx", i, j);
            m->text += (m->text.size() > 1 ? "," : "") + std::string(t);
            i = j;
        }
        m->text += ">";
    }
    m->a = rename(n->a, r);
    m->b = rename(n->b, r);
    return m;
}
inline auto rename(std::string s, std::array<uint8_t, 256> const& r) -> std::string {
    for (char& x : s) { x = static_cast<char>(r[static_cast<unsigned char>(x)]); }
    return s;
}
}  // namespace aut
