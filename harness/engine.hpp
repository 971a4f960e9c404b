// Property-based testing engine: a test case is a finite sequence of bounded choices.
//  * random mode: choices come from a PRNG seeded by (seed, case index)
//  * replay/shrink mode: choices come from a recorded vector (missing choices read as 0)
//  * libFuzzer mode (PBT_LIBFUZZER): choices are decoded from the fuzzer's bytes
// Every generator must terminate, and produce something simple, when all choices are 0.
#pragma once
#include <cstdint>
#include <cstdio>
#include <functional>
#include <map>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt {
struct Violation : std::runtime_error {
    using std::runtime_error::runtime_error;
};
struct Discard {};

class Choices {
public:
    enum class Mode { Random, Replay, Bytes };
    // random
    Choices(uint64_t seed, uint64_t idx);
    // replay
    explicit Choices(std::vector<uint64_t> const& v);
    // bytes
    Choices(uint8_t const* data, size_t n);

    // uniform in [0, n)
    auto draw(uint64_t n) -> uint64_t;
    auto range(uint64_t lo, uint64_t hi) -> uint64_t { return lo + draw(hi - lo + 1); }
    // true with probability num/den; 0 == false
    auto chance(uint32_t num, uint32_t den) -> bool { return draw(den) >= den - num; }
    // small numbers are likelier; result in [0, max]
    auto skewed(uint64_t max) -> uint64_t;
    // index drawn with the given weights (index 0 is the simplest)
    auto weighted(std::initializer_list<uint32_t> w) -> size_t;
    template <class T>
    auto pick(std::vector<T> const& v) -> T const& { return v[draw(v.size())]; }
    auto pick_char(char const* s, size_t n) -> char { return s[draw(n)]; }
    auto recorded() const -> std::vector<uint64_t> const& { return m_rec; }

private:
    auto next() -> uint64_t;
    Mode m_mode;
    uint64_t m_s[2]{};
    std::vector<uint64_t> m_src;
    size_t m_pos{0};
    uint8_t const* m_data{nullptr};
    size_t m_n{0};
    std::vector<uint64_t> m_rec;
};

struct Ctx {
    bool want_desc{false};
    bool is_nontrivial{false};
    uint64_t hash{0};
    std::string desc;
    std::map<std::string, uint64_t> labels;
    void label(std::string const& s) { ++labels[s]; }
    // mark the case as non-trivial; h identifies it (for distinct counting)
    void nontrivial(uint64_t h) { is_nontrivial = true; hash ^= h * 0x9E37'79B9'7F4A'7C15ULL + 0x1234567; }
};

// Each check defines these.
struct PropInfo {
    char const* id;
    char const* rule;          // how cases are made and what makes one non-trivial
    uint32_t case_cpu_limit_s; // CPU seconds after which one case counts as non-terminating
    uint64_t heap_limit_mb;    // live heap bytes after which one case counts as unbounded memory
};
extern PropInfo const g_info;
void prop(Choices& c, Ctx& ctx);

// live heap bytes tracked through allocation hooks (0 if unavailable)
auto live_heap() -> uint64_t;
auto peak_heap() -> uint64_t;
// allocated blocks; unlike the bytes, which include the allocator's rounding, their number is a function of what the code does
auto live_blocks() -> uint64_t;
void reset_peak_heap();

auto hash_bytes(void const* p, size_t n, uint64_t h = 1469598103934665603ULL) -> uint64_t;
inline auto hash_str(std::string const& s, uint64_t h = 1469598103934665603ULL) -> uint64_t {
    return hash_bytes(s.data(), s.size(), h);
}
// where a case may keep files (removed with the run)
auto work_dir() -> std::string const&;
// printable rendering
auto show(std::string const& s, size_t max = 400) -> std::string;
[[noreturn]] inline void fail(std::string const& m) { throw Violation(m); }
}  // namespace pbt
