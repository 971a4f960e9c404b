// C19: the interval tree finds and removes exactly the overlapping intervals.
#include <algorithm>
#include <cstdint>
#include <map>
#include <memory>
#include <string>
#include <log_surgeon/finite_automata/UnicodeIntervalTree.hpp>
#include <vector>

#include "../harness/engine.hpp"
using namespace pbt;
PropInfo const pbt::g_info{
        "C19",
        "case = a sequence of 1-150 operations (sometimes several hundred, or a bulk insertion in ascending or descending order) on 1-2 "
        "interval trees: insert (new, overlapping, nested, touching and repeated intervals; single points; the ends of the uint32 and "
        "Unicode ranges), find, pop, all and reset, also on empty trees; every result, and periodically the whole tree, is compared with "
        "an ordered map of intervals. Non-trivial: at least 4 intervals at some point, a query that overlaps some but not all of them, "
        "and a removal of at least one interval.",
        20,
        1024
};
namespace {
using log_surgeon::finite_automata::Interval;
using log_surgeon::finite_automata::UnicodeIntervalTree;
using Item = std::pair<Interval, std::string>;
struct Obj {
    UnicodeIntervalTree<std::string> tree;
    std::map<Interval, std::string> model;
};
auto istr(Interval const& i) -> std::string { return "[" + std::to_string(i.first) + "," + std::to_string(i.second) + "]"; }
auto str(std::vector<Item> const& v) -> std::string {
    std::string s = "{";
    for (size_t i = 0; i < v.size() && i < 30; ++i) { s += (i ? " " : "") + istr(v[i].first) + "=" + v[i].second; }
    return s + (v.size() > 30 ? " ...}(" + std::to_string(v.size()) + ")" : "}");
}
template <class V>
auto items(V const& data) -> std::vector<Item> {
    std::vector<Item> r;
    for (auto const& d : data) { r.emplace_back(d.m_interval, d.m_value); }
    return r;
}
auto overlapping(Obj const& o, Interval const& q) -> std::vector<Item> {
    std::vector<Item> r;
    for (auto const& [i, v] : o.model) {
        if (i.first <= q.second && q.first <= i.second) { r.emplace_back(i, v); }
    }
    return r;
}
struct Gen {
    uint32_t range;
    auto point(Choices& c) const -> uint32_t {
        if (c.chance(1, 12)) {
            static constexpr uint32_t cEdges[]{0, 1, 0x7f, 0x80, 0x7ff, 0x10'ffff, 0x11'0000, 0x7fff'ffff, 0x8000'0000, 0xffff'fffe, 0xffff'ffff};
            return cEdges[c.draw(std::size(cEdges))];
        }
        return static_cast<uint32_t>(c.draw(range));
    }
    auto interval(Choices& c, Obj const& o) const -> Interval {
        if (!o.model.empty() && c.chance(1, 4)) {
            // related to one that is there
            auto it = o.model.begin();
            std::advance(it, static_cast<long>(c.draw(o.model.size())));
            auto [a, b] = it->first;
            switch (c.draw(6)) {
                case 0: return {a, b};
                case 1: return {b, b};
                case 2: return b == UINT32_MAX ? Interval{a, b} : Interval{b + 1, b + 1};
                case 3: return a == 0 ? Interval{a, b} : Interval{a - 1, a - 1};
                case 4: return {a, a + (b - a) / 2};
                default: return {a, std::max(b, point(c))};
            }
        }
        uint32_t a = point(c);
        uint32_t b = c.chance(1, 4) ? a : c.chance(3, 4) ? a + static_cast<uint32_t>(c.draw(std::min<uint64_t>(range / 4 + 1, UINT32_MAX - a + 1ULL))) : point(c);
        return {std::min(a, b), std::max(a, b)};
    }
};
void check_all(Obj& o, std::string const& ops) {
    auto g = items(o.tree.all());
    std::vector<Item> w(o.model.begin(), o.model.end());
    if (g != w) { fail("after " + ops + ": all() returns " + str(g) + ", the tree holds " + str(w)); }
}
}  // namespace
void pbt::prop(Choices& c, Ctx& ctx) {
    std::vector<Obj> objs(c.chance(1, 5) ? 2 : 1);
    std::string ops;
    uint64_t h = 11;
    size_t most = 0;
    bool partial = false, removed = false, emptied = false, replaced = false;
    auto say = [&](std::string const& s) {
        if (ctx.want_desc) { ctx.desc += (ctx.desc.empty() ? "" : "; ") + s; }
        if (ops.size() < 1500) { ops += (ops.empty() ? "" : "; ") + s; }
        h = hash_str(s, h);
    };
    Gen gen{static_cast<uint32_t>(c.pick(std::vector<uint64_t>{10, 40, 200, 1000, 0x11'0000, 0xffff'ffff}))};
    if (c.chance(1, 15)) {
        size_t n = 1 + c.draw(400);
        bool up = c.chance(1, 2);
        uint32_t width = static_cast<uint32_t>(1 + c.draw(4)), step = static_cast<uint32_t>(1 + c.draw(4));
        say("bulk insert of " + std::to_string(n) + (up ? " ascending" : " descending") + " width " + std::to_string(width) + " step " + std::to_string(step));
        for (size_t i = 0; i < n; ++i) {
            uint32_t a = static_cast<uint32_t>((up ? i : n - i) * step);
            Interval iv{a, a + width - 1};
            objs[0].tree.insert(iv, "b" + std::to_string(i));
            objs[0].model[iv] = "b" + std::to_string(i);
        }
        check_all(objs[0], ops);
    }
    size_t n_ops = 1 + c.draw(c.chance(1, 20) ? 600 : 150);
    bool const shrinking = c.chance(1, 3);
    Interval last{0, 0};  // the same interval again, whatever the operation
    for (size_t i = 0; i < n_ops; ++i) {
        size_t k = c.draw(objs.size());
        auto& o = objs[k];
        std::string pre = objs.size() > 1 ? "#" + std::to_string(k) + "." : "";
        auto iv = c.chance(1, 5) ? last : gen.interval(c, o);
        last = iv;
        switch (shrinking ? c.weighted({5, 2, 5, 1}) : c.weighted({10, 4, 2, 1})) {
            case 0: {
                std::string v = std::to_string(i);
                say(pre + "insert(" + istr(iv) + "," + v + ")");
                o.tree.insert(iv, v);
                replaced |= o.model.count(iv) != 0;
                o.model[iv] = v;
                most = std::max(most, o.model.size());
                break;
            }
            case 1: {
                say(pre + "find(" + istr(iv) + ")");
                auto g = items(*o.tree.find(iv));
                auto w = overlapping(o, iv);
                if (g != w) { fail("after " + ops + ": find returns " + str(g) + ", overlapping are " + str(w)); }
                partial |= !w.empty() && w.size() < o.model.size();
                break;
            }
            case 2: {
                say(pre + "pop(" + istr(iv) + ")");
                auto g = items(*o.tree.pop(iv));
                std::sort(g.begin(), g.end());
                auto w = overlapping(o, iv);
                if (g != w) { fail("after " + ops + ": pop returns " + str(g) + ", overlapping are " + str(w)); }
                for (auto const& [q, v] : w) { o.model.erase(q); }
                removed |= !w.empty();
                break;
            }
            default:
                if (c.chance(1, 20)) {
                    say(pre + "reset()");
                    o.tree.reset();
                    o.model.clear();
                } else {
                    say(pre + "all()");
                }
                check_all(o, ops);
        }
        emptied |= o.model.empty();
        if (i % 16 == 15) { check_all(o, ops); }
    }
    for (auto& o : objs) { check_all(o, ops); }
    if (most >= 4 && partial && removed) { ctx.nontrivial(h); }
    if (emptied) { ctx.label("was empty"); }
    if (replaced) { ctx.label("value replaced"); }
    if (most >= 50) { ctx.label("50 intervals or more"); }
    if (objs.size() > 1) { ctx.label("two trees"); }
}
