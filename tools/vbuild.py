"""Build the harness against /repo's current working tree (content-hash keyed, offline)."""
import concurrent.futures as cf
import hashlib
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")

BASE = ["-std=c++20", "-w", "-include", "cstdint", f"-I{REPO}/src", f"-I{VERIF}/harness"]
# name -> (preferred compilers, flags)
VARIANTS = {
    "fast": ["-O2", "-g1", "-D_GLIBCXX_ASSERTIONS", "-DPBT_VARIANT_FAST"],
    "asan": ["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS", "-DPBT_VARIANT_ASAN"],
    "fuzz": ["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS", "-DPBT_LIBFUZZER", "-DPBT_VARIANT_ASAN"],
}
GUARD = "LOG_SURGEON_VERIF_BUFF_SIZE"


def lib_sources():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        for f in sorted(fs):
            if f.endswith(".cpp"):
                out.append(os.path.join(d, f))
    return sorted(out)


def tree_hash(roots, exts):
    h = hashlib.sha256()
    for r in roots:
        if os.path.isfile(r):
            files = [r]
        else:
            files = []
            for d, ds, fs in os.walk(r):
                ds.sort()
                files += [os.path.join(d, f) for f in sorted(fs) if f.endswith(exts)]
        for p in files:
            h.update(p.encode())
            h.update(b"\0")
            with open(p, "rb") as f:
                h.update(f.read())
            h.update(b"\0")
    return h.hexdigest()


def run(cmd, timeout=800):
    return subprocess.run(cmd, capture_output=True, text=True, timeout=timeout)


def compile_one(args):
    cxx, flags, src, obj = args
    if os.path.exists(obj):
        return None
    tmp = obj + f".tmp{os.getpid()}"
    r = run([cxx, *flags, "-c", src, "-o", tmp])
    if r.returncode != 0:
        return f"{cxx} {src}\n" + r.stderr[:2000]
    os.replace(tmp, obj)
    return None


class BuildError(Exception):
    pass


def prune():
    """Keep the build directory small: drop the oldest entries."""
    try:
        ents = [os.path.join(BUILD, e) for e in os.listdir(BUILD)]
    except FileNotFoundError:
        return
    ents = [e for e in ents if os.path.isdir(e)]
    ents.sort(key=os.path.getmtime)
    for e in ents[:-40]:
        shutil.rmtree(e, ignore_errors=True)


def build_all(targets):
    """targets: list of (name, variant, bufsize or None, check source, extra flags). -> {name: binary}"""
    os.makedirs(BUILD, exist_ok=True)
    prune()
    last_err = None
    for suffix, cxxs in (("clang", "clang++"), ("gcc", "g++")):
        try:
            return _build(targets, cxxs)
        except BuildError as e:
            last_err = last_err or e
    raise last_err


def _build(targets, cxx):
    lib_h = tree_hash([os.path.join(REPO, "src")], (".cpp", ".hpp", ".tpp", ".h", ".inc"))
    har_h = tree_hash([os.path.join(VERIF, "harness")], (".cpp", ".hpp"))
    jobs, links = {}, []
    out = {}
    for name, variant, buf, check, extra in targets:
        if cxx == "g++" and variant == "fuzz":
            continue
        flags = BASE + VARIANTS[variant] + list(extra)
        if buf:
            flags.append(f"-D{GUARD}={buf}")
        lib_flags = list(flags)
        chk_flags = list(flags)
        if variant == "fuzz":
            lib_flags.append("-fsanitize=fuzzer-no-link")
            chk_flags.append("-fsanitize=fuzzer-no-link")
        key_l = hashlib.sha256(("|".join([cxx, *lib_flags]) + lib_h).encode()).hexdigest()[:16]
        key_h = hashlib.sha256(("|".join([cxx, *chk_flags]) + lib_h + har_h).encode()).hexdigest()[:16]
        check_h = tree_hash([check], (".cpp",))[:16]
        ldir = os.path.join(BUILD, "l" + key_l)
        hdir = os.path.join(BUILD, "h" + key_h)
        os.makedirs(ldir, exist_ok=True)
        os.makedirs(hdir, exist_ok=True)
        os.utime(ldir)
        os.utime(hdir)
        objs = []
        cobj = os.path.join(hdir, os.path.basename(check)[:-4] + "-" + check_h + ".o")
        jobs[cobj] = (cxx, chk_flags, check, cobj)
        objs.append(cobj)
        eobj = os.path.join(hdir, "engine.o")
        jobs[eobj] = (cxx, chk_flags, os.path.join(VERIF, "harness", "engine.cpp"), eobj)
        objs.append(eobj)
        for s in lib_sources():
            o = os.path.join(ldir, os.path.relpath(s, REPO).replace("/", "_")[:-4] + ".o")
            jobs[o] = (cxx, lib_flags, s, o)
            objs.append(o)
        exe = cobj[:-2] + ".exe"
        links.append((exe, [cxx, *chk_flags, *(["-fsanitize=fuzzer"] if variant == "fuzz" else []), *objs, "-lfmt", "-o", exe]))
        out[name] = exe
    # biggest translation units first
    def weight(j):
        s = j[2]
        return 0 if "/checks/" in s else 1 if ("SchemaParser" in s or "LALR1" in s) else 2 if "Parser" in s else 3
    todo = sorted((j for j in jobs.values() if not os.path.exists(j[3])), key=weight)
    with cf.ThreadPoolExecutor(8) as ex:
        errs = [e for e in ex.map(compile_one, todo) if e]
    if errs:
        raise BuildError("\n".join(errs[:2]))

    def link(a):
        exe, cmd = a
        if os.path.exists(exe):
            return None
        tmp = exe + f".tmp{os.getpid()}"
        r = run(cmd[:-1] + [tmp])
        if r.returncode != 0:
            return r.stderr[-3000:]
        os.replace(tmp, exe)
        return None
    with cf.ThreadPoolExecutor(4) as ex:
        errs = [e for e in ex.map(link, links) if e]
    if errs:
        raise BuildError("\n".join(errs[:2]))
    return out


if __name__ == "__main__":
    # vbuild.py <check> <variant> [bufsize]
    check = os.path.join(VERIF, "checks", sys.argv[1] + ".cpp")
    v = sys.argv[2]
    b = sys.argv[3] if len(sys.argv) > 3 and sys.argv[3] != "-" else None
    try:
        print(build_all([("x", v, b, check, [])])["x"])
    except BuildError as e:
        print(e, file=sys.stderr)
        sys.exit(2)
