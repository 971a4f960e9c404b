// C15: registers and prefix trees return exactly the recorded position histories.
#include <limits>
#include <log_surgeon/finite_automata/PrefixTree.hpp>
#include <log_surgeon/finite_automata/RegisterHandler.hpp>
#include <optional>

#include "../harness/engine.hpp"
using namespace pbt;
PropInfo const pbt::g_info{
        "C15",
        "case = a sequence of 1-120 operations (sometimes thousands of appends) on 1-3 prefix trees or register handlers: insert / add "
        "register under valid and invalid parents, set, copy, append with positions over the whole int32 range, whole-object copy, "
        "assignment and move; after an operation the touched register or node, the one read last, any or none, and periodically every register and node, is read back and "
        "compared with a path-list model. Non-trivial: at least 3 nodes, one set or copy, and one refused operation or a shared path.",
        20,
        1024
};
namespace {
using log_surgeon::finite_automata::PrefixTree;
using log_surgeon::finite_automata::RegisterHandler;
using P = PrefixTree::position_t;
struct Model {
    std::vector<std::pair<long, P>> nodes{{-1, -1}};
    std::vector<size_t> regs;
    auto path(size_t n) const -> std::vector<P> {
        std::vector<P> r;
        while (nodes[n].first >= 0) {
            r.push_back(nodes[n].second);
            n = static_cast<size_t>(nodes[n].first);
        }
        return r;
    }
};
auto str(std::vector<P> const& v) -> std::string {
    std::string s = "[";
    for (size_t i = 0; i < v.size() && i < 40; ++i) { s += (i ? "," : "") + std::to_string(v[i]); }
    return s + (v.size() > 40 ? ",...](" + std::to_string(v.size()) + ")" : "]");
}
template <class F>
auto throws(F&& f, std::string const& what) -> void {
    try {
        f();
    } catch (std::out_of_range const&) {
        return;
    } catch (std::exception const& e) { fail(what + " is out of range but throws something else: " + e.what()); }
    fail(what + " is out of range but is not refused");
}
auto position(Choices& c) -> P {
    switch (c.weighted({6, 2, 1, 1, 2})) {
        case 0: return static_cast<P>(c.draw(50));
        case 1: return -static_cast<P>(c.draw(5));
        case 2: return std::numeric_limits<P>::max() - static_cast<P>(c.draw(3));
        case 3: return std::numeric_limits<P>::min() + static_cast<P>(c.draw(3));
        default: return static_cast<P>(static_cast<uint32_t>(c.draw(1ULL << 32)));
    }
}
// an index that is out of range for n elements
auto bad(Choices& c, size_t n, bool reg) -> size_t {
    switch (c.draw(reg ? 4 : 3)) {
        case 0: return n;
        case 1: return n + 1 + c.draw(5);
        case 2: return std::numeric_limits<uint32_t>::max() - c.draw(2);
        default: return std::numeric_limits<size_t>::max() - c.draw(2);
    }
}
struct Obj {
    PrefixTree tree;
    RegisterHandler h;
    Model mt, mh;
    size_t last_node{0}, last_reg{0};  // read last
};
void check_tree(Obj const& o, size_t n, std::string const& ops) {
    auto g = o.tree.get_reversed_positions(static_cast<uint32_t>(n));
    auto w = o.mt.path(n);
    if (g != w) { fail("after " + ops + ": node " + std::to_string(n) + " reads " + str(g) + ", recorded " + str(w)); }
    if (o.tree.size() != o.mt.nodes.size()) { fail("after " + ops + ": size() is " + std::to_string(o.tree.size()) + ", expected " + std::to_string(o.mt.nodes.size())); }
}
void check_reg(Obj const& o, size_t r, std::string const& ops) {
    auto g = o.h.get_reversed_positions(r);
    auto w = o.mh.path(o.mh.regs[r]);
    if (g != w) { fail("after " + ops + ": register " + std::to_string(r) + " reads " + str(g) + ", recorded " + str(w)); }
}
void check_all(Obj const& o, std::string const& ops) {
    if (o.mt.nodes.size() < 300) {
        for (size_t i = 0; i < o.mt.nodes.size(); ++i) { check_tree(o, i, ops); }
    } else {
        check_tree(o, o.mt.nodes.size() - 1, ops);
        check_tree(o, o.mt.nodes.size() / 2, ops);
    }
    for (size_t i = 0; i < o.mh.regs.size(); ++i) { check_reg(o, i, ops); }
}
}  // namespace
void pbt::prop(Choices& c, Ctx& ctx) {
    std::vector<Obj> objs(1);
    std::string ops;
    bool refused = false, shared = false, sets = false;
    size_t n_ops = 1 + c.draw(120);
    bool handler_only = c.chance(1, 2);
    uint64_t h = 7;
    auto say = [&](std::string const& s) {
        if (ctx.want_desc) {
            ctx.desc += (ctx.desc.empty() ? "" : "; ") + s;
        }
        if (ops.size() < 1500) { ops += (ops.empty() ? "" : "; ") + s; }
        h = hash_str(s, h);
    };
    auto num = [](auto x) { return std::to_string(x); };
    // reading is an operation as well: the touched one, the one read last, any, or none
    auto look_tree = [&](Obj& o, size_t touched) {
        size_t n = touched;
        switch (c.weighted({5, 3, 2, 2})) {
            case 0: break;
            case 1: n = std::min(o.last_node, o.mt.nodes.size() - 1); break;
            case 2: n = c.draw(o.mt.nodes.size()); break;
            default: return;
        }
        check_tree(o, n, ops);
        o.last_node = n;
    };
    auto look_reg = [&](Obj& o, size_t touched) {
        size_t r = touched;
        switch (c.weighted({5, 3, 2, 2})) {
            case 0: break;
            case 1: r = std::min(o.last_reg, o.mh.regs.size() - 1); break;
            case 2: r = c.draw(o.mh.regs.size()); break;
            default: return;
        }
        check_reg(o, r, ops);
        o.last_reg = r;
    };
    for (size_t i = 0; i < n_ops; ++i) {
        size_t k = c.draw(objs.size());
        auto& o = objs[k];
        std::string pre = objs.size() > 1 ? "#" + num(k) + "." : "";
        auto p = position(c);
        bool use_h = handler_only || c.chance(1, 2);
        if (!use_h) {
            size_t nn = o.mt.nodes.size();
            switch (c.weighted({6, 3, 1, 1, 1})) {
                case 0: {
                    size_t par = c.chance(1, 2) ? nn - 1 : c.draw(nn);
                    say(pre + "insert(" + num(par) + "," + num(p) + ")");
                    auto id = o.tree.insert(static_cast<uint32_t>(par), p);
                    if (id != nn) { fail("after " + ops + ": insert returns " + num(id) + " for node " + num(nn)); }
                    o.mt.nodes.emplace_back(static_cast<long>(par), p);
                    look_tree(o, id);
                    break;
                }
                case 1: {
                    size_t n = c.draw(nn);
                    say(pre + "set(" + num(n) + "," + num(p) + ")");
                    o.tree.set(static_cast<uint32_t>(n), p);
                    o.mt.nodes[n].second = p;
                    sets = true;
                    look_tree(o, n);
                    break;
                }
                case 2: {
                    auto b = bad(c, nn, false);
                    say(pre + "insert(" + num(b) + "!," + num(p) + ")");
                    throws([&] { (void)o.tree.insert(static_cast<uint32_t>(b), p); }, ops);
                    refused = true;
                    break;
                }
                case 3: {
                    auto b = bad(c, nn, false);
                    say(pre + "set(" + num(b) + "!)");
                    throws([&] { o.tree.set(static_cast<uint32_t>(b), p); }, ops);
                    refused = true;
                    break;
                }
                default: {
                    auto b = bad(c, nn, false);
                    say(pre + "get(" + num(b) + "!)");
                    throws([&] { (void)o.tree.get_reversed_positions(static_cast<uint32_t>(b)); }, ops);
                    refused = true;
                }
            }
        } else {
            size_t nr = o.mh.regs.size(), nn = o.mh.nodes.size();
            size_t op = c.weighted({4, 3, 3, 5, 2, 1});
            if (nr == 0 && op < 4) { op = 0; }
            size_t r = nr ? c.draw(nr) : 0;
            switch (op) {
                case 0: {
                    size_t par = c.chance(1, 3) ? 0 : c.draw(nn);
                    say(pre + "add_register(" + num(par) + "," + num(p) + ")");
                    o.h.add_register(static_cast<uint32_t>(par), p);
                    o.mh.nodes.emplace_back(static_cast<long>(par), p);
                    o.mh.regs.push_back(nn);
                    r = nr;
                    shared |= par != 0;
                    break;
                }
                case 1:
                    say(pre + "set_register(" + num(r) + "," + num(p) + ")");
                    o.h.set_register(r, p);
                    o.mh.nodes[o.mh.regs[r]].second = p;
                    sets = true;
                    break;
                case 2: {
                    size_t s = c.draw(nr);
                    say(pre + "copy_register(" + num(r) + "," + num(s) + ")");
                    o.h.copy_register(r, s);
                    o.mh.regs[r] = o.mh.regs[s];
                    sets = shared = true;
                    break;
                }
                case 3: {
                    size_t times = c.chance(1, 40) ? 1 + c.draw(3000) : 1;
                    if (times > 1 && c.chance(1, 60)) { times += 65536; }  // more than 16 bits can count
                    say(pre + "append(" + num(r) + "," + num(p) + (times > 1 ? ") x" + num(times) : ")"));
                    for (size_t t = 0; t < times; ++t) {
                        P q = static_cast<P>(static_cast<uint32_t>(p) + static_cast<uint32_t>(t));
                        o.h.append_position(r, q);
                        o.mh.nodes.emplace_back(static_cast<long>(o.mh.regs[r]), q);
                        o.mh.regs[r] = o.mh.nodes.size() - 1;
                    }
                    break;
                }
                case 4: {
                    auto b = bad(c, nr, true);
                    size_t w = c.draw(5);
                    if (nr == 0 && w >= 3) { w = 0; }
                    say(pre + "bad register " + num(b) + " op " + num(w));
                    switch (w) {
                        case 0: throws([&] { o.h.set_register(b, p); }, ops); break;
                        case 1: throws([&] { o.h.append_position(b, p); }, ops); break;
                        case 2: throws([&] { (void)o.h.get_reversed_positions(b); }, ops); break;
                        case 3: throws([&] { o.h.copy_register(b, r); }, ops); break;
                        default: throws([&] { o.h.copy_register(r, b); }, ops);
                    }
                    refused = true;
                    if (nr) { look_reg(o, r); }
                    continue;
                }
                default: {
                    auto b = bad(c, nn, false);
                    say(pre + "add_register(" + num(b) + "!," + num(p) + ")");
                    throws([&] { o.h.add_register(static_cast<uint32_t>(b), p); }, ops);
                    throws([&] { (void)o.h.get_reversed_positions(nr); }, ops + "; get(new register)");
                    refused = true;
                    if (nr) { look_reg(o, r); }
                    continue;
                }
            }
            look_reg(o, r);
        }
        if (c.chance(1, 25) && objs.size() < 3) {
            say("#" + num(objs.size()) + " = copy of #" + num(k));
            auto cp = objs[k];
            objs.push_back(cp);
            ctx.label("object copies");
        } else if (c.chance(1, 40) && objs.size() > 1) {
            size_t d = c.draw(objs.size());
            if (d != k) {
                say("#" + num(d) + " = #" + num(k));
                objs[d] = objs[k];
            }
        } else if (c.chance(1, 40)) {
            say("move #" + num(k) + " out and back");
            Obj t{std::move(objs[k])};
            objs[k] = std::move(t);
        }
        if (c.chance(1, 8)) { for (auto const& x : objs) { check_all(x, ops); } }
    }
    for (auto const& x : objs) { check_all(x, ops); }
    size_t nn = 0;
    for (auto const& x : objs) { nn = std::max({nn, x.mt.nodes.size(), x.mh.nodes.size()}); }
    if (nn >= 4 && sets && (refused || shared)) { ctx.nontrivial(h); }
    if (refused) { ctx.label("refused operations"); }
    if (shared) { ctx.label("shared paths"); }
}
