#!/usr/bin/env python3
"""Run the check of one property: build the harness variants from /repo's working tree, search, report.

usage: run_check.py <id> [--tier quick|thorough] [--seed N] [--replay FILE]
Exit 0: held on everything explored. Exit 1 + VIOLATION line: broken. Exit 2: the check itself failed.
"""
import argparse
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild  # noqa: E402
from checks_table import CHECKS  # noqa: E402

VERIF = vbuild.VERIF
SEED_STEP = 1_000_003


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            # known: property=<id> match=<text that the failing case's report contains> :: <what fails>
            if line.startswith(f"known: property={pid} match="):
                m, _, what = line.split("match=", 1)[1].partition(" :: ")
                out.append((m, what))
    return out


def run_engine(exe, args, work, timeout):
    out = os.path.join(work, "out.json")
    fail = os.path.join(work, "fail.txt")
    for f in (out, fail):
        if os.path.exists(f):
            os.unlink(f)
    cmd = [exe, *args, "--out", out, "--fail-out", fail, "--work", work]
    r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=work)
    if not os.path.exists(out):
        raise RuntimeError(f"{cmd} ended with {r.returncode}\n{r.stdout[-2000:]}\n{r.stderr[-2000:]}")
    with open(out) as f:
        d = json.load(f)
    if d["violated"]:
        with open(fail) as f:
            d["choices"] = f.read().strip()
    elif r.returncode != 0:
        raise RuntimeError(f"{cmd} ended with {r.returncode}\n{r.stderr[-2000:]}")
    return d


def run_fuzz(fuzz_exe, confirm_exe, seed, secs, work, shrink_s):
    """Coverage-guided search (libFuzzer) over the same choice sequences; anything it stops at is replayed by the normal harness."""
    d = tempfile.mkdtemp(prefix="fuzz-", dir=work)
    corpus, art = os.path.join(d, "corpus"), os.path.join(d, "art")
    os.makedirs(corpus)
    os.makedirs(art)
    rng = random.Random(seed)
    for i in range(60):
        with open(os.path.join(corpus, f"s{i}"), "wb") as f:
            f.write(rng.randbytes(rng.choice((20, 100, 400, 1500))))
    env = dict(os.environ, PBT_WORK=d, TMPDIR=d)
    procs = []
    t0 = time.time()
    for w in range(8):
        e = dict(env, PBT_STATS_FILE=os.path.join(d, f"stats{w}.json"))
        log = open(os.path.join(d, f"log{w}"), "w")
        procs.append((subprocess.Popen(
            [fuzz_exe, corpus, f"-seed={seed * 8 + w + 1}", f"-max_total_time={int(secs)}", "-max_len=4000", "-len_control=0",
             "-timeout=200", "-rss_limit_mb=3000", f"-artifact_prefix={art}/w{w}-", "-print_final_stats=1", "-verbosity=1", "-use_value_profile=1"],
            stdout=log, stderr=subprocess.STDOUT, cwd=d, env=e), log))
    for p, log in procs:
        try:
            p.wait(timeout=secs + 900)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        log.close()
    res = {"evaluations": 0, "distinct_nontrivial": 0, "discarded": 0, "labels": {}, "samples": [], "unreproducible": [], "violated": False,
           "cov": 0, "corpus": len(os.listdir(corpus))}
    for w in range(8):
        sf = os.path.join(d, f"stats{w}.json")
        if os.path.exists(sf):
            with open(sf) as f:
                s = json.load(f)
            res["evaluations"] += s["evaluations"]
            res["distinct_nontrivial"] += s["distinct"]
            res["discarded"] += s["discarded"]
            res["samples"] += s["samples"][:1]
            for k, n in s["labels"].items():
                res["labels"][k] = res["labels"].get(k, 0) + n
        with open(os.path.join(d, f"log{w}"), errors="replace") as f:
            for line in f:
                m = re.search(r"cov: (\d+)", line)
                if m:
                    res["cov"] = max(res["cov"], int(m.group(1)))
    for a in sorted(os.listdir(art)):
        if "-slow-unit-" in a:
            continue
        out, fail = os.path.join(d, "out.json"), os.path.join(d, "fail.txt")
        subprocess.run([confirm_exe, "--bytes", os.path.join(art, a), "--out", out, "--fail-out", fail, "--work", d,
                        "--shrink-seconds", str(shrink_s)], capture_output=True, cwd=d, timeout=3000)
        with open(out) as f:
            o = json.load(f)
        if o["violated"]:
            with open(fail) as f:
                o["choices"] = f.read().strip()
            res.update(o)
            break
        with open(os.path.join(d, "log" + a[1]), errors="replace") as f:
            tail = f.read()[-1500:]
        res["unreproducible"].append(f"{a}: {o['message'][:300]} | {tail}")
    res["wall_s"] = time.time() - t0
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or "1"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    t0 = time.time()
    pid = a.prop
    cfg = CHECKS[pid]
    tier = "thorough" if a.tier == "thorough" else "quick"
    runs = cfg[tier]
    work = tempfile.mkdtemp(prefix=f"verif-{pid}-")
    try:
        return go(a, pid, cfg, tier, runs, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def go(a, pid, cfg, tier, runs, work, t0):
    check = os.path.join(VERIF, "checks", cfg["src"])
    extra = cfg.get("flags", [])
    if a.replay:
        with open(a.replay) as f:
            rep = json.load(f)
        exe = vbuild.build_all([("x", rep["variant"], rep["buf"], check, extra)])["x"]
        ch = os.path.join(work, "choices.txt")
        with open(ch, "w") as f:
            f.write(rep["choices"])
        r = subprocess.run([exe, "--replay", ch, "--work", work], capture_output=True, text=True)
        print(r.stdout)
        return r.returncode
    targets = {}
    for v, b, *_ in runs:
        targets[(v, b)] = (f"{v}-{b}", v, b, check, extra)
        if v == "fuzz":
            targets[("asan", b)] = (f"asan-{b}", "asan", b, check, extra)
    exes = vbuild.build_all(list(targets.values()))
    t_build = time.time() - t0
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "discarded": 0, "rule": "", "samples": [], "labels": {}, "runs": [],
           "unreproducible": [], "build_s": round(t_build, 1)}
    viol = None
    known_hit = []
    kf = known_findings(pid)
    for i, (v, b, cases, max_s) in enumerate(runs):
        if f"{v}-{b}" not in exes:
            continue
        seed = a.seed + i * SEED_STEP
        if v == "fuzz":
            d = run_fuzz(exes[f"fuzz-{b}"], exes[f"asan-{b}"], seed, max_s, work, 120)
            v = "asan"  # what replays the case
        else:
            d = run_engine(
                exes[f"{v}-{b}"],
                ["--seed", str(seed), "--cases", str(cases), "--max-seconds", str(max_s), "--workers", "8",
                 "--shrink-seconds", "40" if tier == "quick" else "120"],
                work, max_s * 4 + 1500)
            cov["rule"] = d["rule"]
        cov["evaluations"] += d["evaluations"]
        cov["distinct_nontrivial"] += d["distinct_nontrivial"]
        cov["discarded"] += d["discarded"]
        for s in d["samples"]:
            if len(cov["samples"]) < 8:
                cov["samples"].append(s[:1500])
        for k, n in d["labels"].items():
            cov["labels"][k] = cov["labels"].get(k, 0) + n
        cov["unreproducible"] += d["unreproducible"]
        cov["runs"].append({"variant": v, "static_buffer": b or 48000, "seed": seed, "requested": cases,
                            "evaluations": d["evaluations"], "distinct_nontrivial": d["distinct_nontrivial"],
                            "wall_s": round(d["wall_s"], 1),
                            **({"search": "coverage-guided (libFuzzer)", "edges": d["cov"], "corpus": d["corpus"]} if "cov" in d else {})})
        if d["violated"]:
            text = d["message"] + "\n" + d["description"]
            hit = next((w for m, w in kf if m in text), None)
            if hit is not None:
                known_hit.append(hit)
                continue
            viol = (v, b, seed, d)
            break
    ev = {"property": pid, "tier": tier, "seed": a.seed, "level": "exploration", "coverage": cov,
          "wall_s": round(time.time() - t0, 2)}
    if viol:
        v, b, seed, d = viol
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        rp = os.path.join(VERIF, "replays", f"{pid}-{v}-{b or 'std'}-{seed}-{d['case']}.json")
        with open(rp, "w") as f:
            json.dump({"property": pid, "variant": v, "buf": b, "seed": seed, "case": d["case"], "kind": d["kind"],
                       "message": d["message"], "description": d["description"], "choices": d["choices"],
                       "how": f"python3 tools/run_check.py {pid} --replay {rp}"}, f, indent=1)
        ev["violation"] = {"replay": rp, "kind": d["kind"], "message": d["message"][:3000], "description": d["description"][:3000]}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    for w in sorted(set(known_hit)):
        print(f"KNOWN-FINDING: property={pid} {w}")
    print(f"{pid} {tier}: {cov['evaluations']} cases, {cov['distinct_nontrivial']} distinct non-trivial, "
          f"build {t_build:.1f} s, total {time.time() - t0:.1f} s")
    if cov["unreproducible"]:
        print(f"note: {len(cov['unreproducible'])} failures could not be reproduced and are not reported as violations")
    if viol:
        print(f"[{d['kind']}] {d['message'][:2500]}\n{d['description'][:2500]}")
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except vbuild.BuildError as e:
        print("build failed:", e, file=sys.stderr)
        rc = 2
    except Exception as e:  # an error of the check, never a verdict
        print("check error:", repr(e), file=sys.stderr)
        rc = 2
    sys.exit(rc)
