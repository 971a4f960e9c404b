// C16: FileReader delivers the file's bytes in order and honest error codes.
#include <dirent.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>

#include <cstring>
#include <log_surgeon/FileReader.hpp>
#include <memory>

#include "../harness/engine.hpp"
using namespace pbt;
PropInfo const pbt::g_info{
        "C16",
        "case = 1-3 files with random contents (empty, tiny, embedded NUL and 0xFF bytes, with and without final delimiter, around stdio's "
        "4096 byte buffer, up to 260 kB) in a private scratch directory, and a sequence of 1-60 calls on 1-2 readers: open (existing, "
        "missing, through a file or a missing directory, too long, directory), read of 0..n bytes into an exactly sized block, read with a null buffer, read to any "
        "delimiter with every keep/append combination into a non-empty string, close, destroy and recreate; every result and error code "
        "is compared with a byte-position model. Non-trivial: at least 2 calls that delivered data and an end-of-file, error or re-open.",
        20,
        1024
};
namespace {
using log_surgeon::ErrorCode;
using log_surgeon::FileReader;
struct Scratch {
    std::string dir;
    Scratch() {
        dir = work_dir() + "/c16-XXXXXX";
        if (!mkdtemp(dir.data())) { throw std::runtime_error("mkdtemp"); }
    }
    ~Scratch() {
        for (int i = 0; i < 4; ++i) { unlink((dir + "/f" + std::to_string(i)).c_str()); }
        rmdir((dir + "/d").c_str());
        rmdir(dir.c_str());
    }
};
auto name(ErrorCode e) -> std::string { return std::to_string(static_cast<int>(e)); }
auto open_fds() -> int {
    int n = 0;
    if (auto* d = opendir("/proc/self/fd")) {
        while (readdir(d)) { ++n; }
        closedir(d);
    }
    return n;
}
struct Rd {
    std::unique_ptr<FileReader> r{std::make_unique<FileReader>()};
    int file{-1};  // -1: not open, -2: directory
    size_t pos{0};
};
}  // namespace
void pbt::prop(Choices& c, Ctx& ctx) {
    Scratch s;
    size_t nf = 1 + c.draw(3);
    std::vector<std::string> data(nf);
    static char const pool[] = "ab\n \0\xff;c\r";
    for (size_t i = 0; i < nf; ++i) {
        size_t len;
        bool huge = false;
        switch (c.weighted({60, 20, 20, 10, 10, 1})) {
            case 0: len = c.draw(40); break;
            case 1: len = 0; break;
            case 2: len = 4090 + c.draw(12); break;
            case 3: len = 8185 + c.draw(14); break;
            case 4: len = c.draw(40000); break;
            default:
                // more than 16 bits can count, with long lines
                len = 65530 + c.draw(c.chance(1, 4) ? 200000 : 12);
                huge = true;
        }
        bool few = c.chance(1, 2);
        if (len <= 40) {
            for (size_t j = 0; j < len; ++j) { data[i] += pool[c.draw(sizeof(pool) - 1)]; }
        } else {
            // long contents: a few choices expanded
            uint64_t x = c.draw(1u << 30) + 1;
            for (size_t j = 0; j < len; ++j) {
                x = x * 6364136223846793005ULL + 1442695040888963407ULL;
                data[i] += few || huge ? ((x >> 33) % (huge ? 90001 : 97) ? 'a' + (x >> 50) % 3 : pool[(x >> 33) % (sizeof(pool) - 1)]) : static_cast<char>(x >> 40);
            }
        }
        FILE* f = fopen((s.dir + "/f" + std::to_string(i)).c_str(), "wb");
        if (!f || fwrite(data[i].data(), 1, data[i].size(), f) != data[i].size()) { throw std::runtime_error("scratch write"); }
        fclose(f);
        if (ctx.want_desc) { ctx.desc += "f" + std::to_string(i) + "(" + std::to_string(data[i].size()) + ")=\"" + show(data[i], 60) + "\" "; }
    }
    mkdir((s.dir + "/d").c_str(), 0700);
    int fds = open_fds();
    size_t delivered = 0, special = 0;
    uint64_t h = 3;
    {
        std::vector<Rd> rs(1 + c.chance(1, 3));
        std::string ops;
        auto say = [&](std::string const& t) {
            if (ctx.want_desc) { ctx.desc += t + "; "; }
            if (ops.size() < 1500) { ops += t + "; "; }
            h = hash_str(t, h);
        };
        auto expect = [&](ErrorCode want, ErrorCode got) {
            if (want != got) { fail("after " + ops + ": error code " + name(got) + " instead of " + name(want)); }
        };
        size_t n = 1 + c.draw(60);
        std::string keep_str = "pre";
        for (size_t i = 0; i < n; ++i) {
            size_t k = c.draw(rs.size());
            auto& r = rs[k];
            std::string pre = rs.size() > 1 ? "#" + std::to_string(k) + "." : "";
            size_t op = c.weighted({8, 8, 3, 1, 1});
            if (i == 0) { op = 2; }
            if (op == 1 && r.file == -1) { op = c.chance(1, 3) ? 0 : 2; }
            switch (op) {
                case 0: {
                    size_t want = c.weighted({3, 2, 1, 1}) == 0 ? c.draw(12) : c.chance(1, 2) ? c.draw(5000) : c.chance(1, 2) ? 4095 + c.draw(3) : c.draw(c.chance(1, 3) ? 300000 : 50000);
                    if (c.chance(1, 8)) {
                        say(pre + "read(null," + std::to_string(want) + ")");
                        size_t got = 77;
                        expect(r.file == -1 ? ErrorCode::NotInit : ErrorCode::BadParam, r.r->read(nullptr, want, got));
                        ++special;
                        break;
                    }
                    say(pre + "read(" + std::to_string(want) + ")");
                    std::unique_ptr<char[]> buf(new char[want]);
                    std::memset(buf.get(), 0x5A, want);
                    size_t got = 77;
                    auto e = r.r->read(buf.get(), want, got);
                    if (r.file == -1) {
                        expect(ErrorCode::NotInit, e);
                        ++special;
                    } else if (r.file == -2) {
                        if (want) {
                            expect(ErrorCode::Errno, e);
                            ++special;
                        }
                    } else {
                        auto const& d = data[static_cast<size_t>(r.file)];
                        size_t avail = std::min(want, d.size() - r.pos);
                        if (want && !avail) {
                            expect(ErrorCode::EndOfFile, e);
                            ++special;
                            break;
                        }
                        expect(ErrorCode::Success, e);
                        if (got != avail) { fail("after " + ops + ": read returns " + std::to_string(got) + " bytes, " + std::to_string(avail) + " available"); }
                        if (d.compare(r.pos, got, std::string(buf.get(), got)) != 0) { fail("after " + ops + ": read delivers \"" + show(std::string(buf.get(), got), 80) + "\" instead of \"" + show(d.substr(r.pos, got), 80) + "\""); }
                        for (size_t j = got; j < want; ++j) {
                            if (buf[j] != 0x5A && got == 0) { fail("after " + ops + ": read writes beyond what it reports"); }
                        }
                        r.pos += got;
                        delivered += got > 0;
                    }
                    break;
                }
                case 1: {
                    char delim = c.chance(1, 2) ? '\n' : c.chance(1, 6) ? static_cast<char>(c.draw(256)) : pool[c.draw(sizeof(pool) - 1)];
                    bool keep = c.chance(1, 2), app = c.chance(1, 2);
                    std::string str = c.chance(1, 2) ? "pre" : keep_str.substr(0, 200);
                    std::string before = str;
                    say(pre + "to_delim(" + show(std::string(1, delim)) + (keep ? ",keep" : ",strip") + (app ? ",append)" : ",replace)"));
                    auto e = r.r->try_read_to_delimiter(delim, keep, app, str);
                    if (r.file == -2) {
                        expect(ErrorCode::Errno, e);
                        ++special;
                        break;
                    }
                    auto const& d = data[static_cast<size_t>(r.file)];
                    std::string exp = app ? before : "";
                    if (r.pos == d.size()) {
                        expect(ErrorCode::EndOfFile, e);
                        if (str != exp) { fail("after " + ops + ": end of file yields \"" + show(str, 80) + "\", expected \"" + show(exp, 80) + "\""); }
                        ++special;
                        break;
                    }
                    expect(ErrorCode::Success, e);
                    size_t p = d.find(delim, r.pos);
                    size_t end = p == std::string::npos ? d.size() : p + 1;
                    exp += d.substr(r.pos, end - r.pos - (p != std::string::npos && !keep ? 1 : 0));
                    r.pos = end;
                    if (str != exp) { fail("after " + ops + ": string is \"" + show(str, 120) + "\" (" + std::to_string(str.size()) + "), expected \"" + show(exp, 120) + "\" (" + std::to_string(exp.size()) + ")"); }
                    keep_str = str;
                    ++delivered;
                    break;
                }
                case 2: {
                    size_t w = c.weighted({8, 1, 1, 1});
                    size_t f = c.draw(nf);
                    if (r.file != -1) { ++special; }
                    if (w == 0) {
                        say(pre + "open f" + std::to_string(f));
                        expect(ErrorCode::Success, r.r->try_open(s.dir + "/f" + std::to_string(f)));
                        r.file = static_cast<int>(f);
                        r.pos = 0;
                    } else if (w == 1) {
                        size_t m = c.draw(3);
                        say(pre + (m == 0 ? "open missing" : m == 1 ? "open empty path" : "open missing/f0"));
                        expect(ErrorCode::FileNotFound, r.r->try_open(m == 0 ? s.dir + "/missing" : m == 1 ? std::string() : s.dir + "/missing/f0"));
                        r.file = -1;
                        ++special;
                    } else if (w == 2) {
                        bool lng = c.chance(1, 3);
                        say(pre + (lng ? "open a name too long" : "open f0/x"));
                        expect(ErrorCode::Errno, r.r->try_open(s.dir + (lng ? "/" + std::string(300, 'n') : "/f0/x")));
                        r.file = -1;
                        ++special;
                    } else {
                        say(pre + "open directory");
                        auto e = r.r->try_open(s.dir + "/d");
                        if (e == ErrorCode::Success) { r.file = -2; }
                        else {
                            expect(ErrorCode::Errno, e);
                            r.file = -1;
                        }
                    }
                    break;
                }
                case 3:
                    say(pre + "close");
                    r.r->close();
                    r.file = -1;
                    ++special;
                    break;
                default:
                    say(pre + "destroy and recreate");
                    r.r = std::make_unique<FileReader>();
                    r.file = -1;
                    ++special;
            }
        }
        int open_now = 0;
        for (auto const& r : rs) { open_now += r.file != -1; }
        if (open_fds() - fds != open_now) { fail("after " + ops + ": " + std::to_string(open_fds() - fds) + " file descriptors are open, expected " + std::to_string(open_now)); }
    }
    if (open_fds() != fds) { fail("file descriptors stay open after the readers are destroyed"); }
    if (delivered >= 2 && special) { ctx.nontrivial(h); }
    if (special) { ctx.label("errors, end of file or re-open"); }
}
