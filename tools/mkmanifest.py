import json, subprocess, sys
sys.path.insert(0, "/verif/tools")
from checks_table import CHECKS
TECH = {
 "C01": ("property-based testing: losslessness invariant over generated schemas, inputs and front ends", ""),
 "C02": ("property-based testing against a reference model of event splitting", ""),
 "C03": ("property-based testing against a reference tokenizer/matcher model", ""),
 "C04": ("property-based testing: reference model of log types plus a metamorphic value-replacement relation", ""),
 "C05": ("differential property-based testing over read schedules and shrunk/real buffers, reader faults, against the reference model", ""),
 "C06": ("property-based testing of refill schedules against the whole-input parse and the reference model, AddressSanitizer", ""),
 "C07": ("stateful property-based testing of parser histories against fresh parsers and the reference model", ""),
 "C08": ("stateful property-based testing of copies after later parser activity, AddressSanitizer", ""),
 "C09": ("property-based testing of compiled automata against two reference regex matchers", ""),
 "C10": ("property-based testing: schema text round trip, alternative construction routes, size and history sweeps", ""),
 "C11": ("structured mutation fuzzing of schema texts with an accept/reject oracle, AddressSanitizer", ""),
 "C12": ("differential property-based testing under perturbed allocators and prior activity", ""),
 "C13": ("property-based testing of automaton intersection against a reference product construction", ""),
 "C14": ("property-based testing of tagged automata against derivations enumerated from the pattern; clone histories under AddressSanitizer", ""),
 "C15": ("stateful model-based property testing of prefix trees and register handlers", ""),
 "C16": ("stateful model-based property testing of file readers on generated files", ""),
 "C18": ("property-based testing of delimiter-free lexers against a reference longest-match tokenizer, over input schedules", ""),
 "C19": ("stateful model-based property testing of the interval tree against an ordered map", ""),
 "C20": ("property-based testing of repeated episodes with heap and file-descriptor accounting, fault injection in readers and schemas", ""),
 "C17": ("property-based testing of generated parsers against a derivation oracle for random grammars", ""),
}
NOTE = ("Generated-input search against an explicit oracle: no violation among the cases counted in the evidence file; it does not establish absence. "
        "Trusts the reference model in /verif/harness, the compiler and the generators' domain (DESIGN.md). Each quick run is a pure function of the tree and VERIF_SEED up to its time cap.")
checks = []
for pid in sorted(CHECKS):
    t, extra = TECH[pid]
    checks.append({
        "property": pid,
        "quick_cmd": f"python3 tools/run_check.py {pid}",
        "thorough_cmd": f"python3 tools/run_check.py {pid} --tier thorough",
        "technique": t,
        "level": "exploration",
        "level_note": NOTE + extra,
    })
props = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
h = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^Let verification builds"], capture_output=True, text=True).stdout.split()
m = {
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "hooks": {
        "guard": "LOG_SURGEON_VERIF_BUFF_SIZE",
        "enable": "tools/vbuild.py compiles /repo/src with -DLOG_SURGEON_VERIF_BUFF_SIZE=<bytes> (8, 64, ...) in the variants that shrink the static buffers; other variants leave it off",
        "source_commits": h,
    },
    "checks": checks,
    "not_applicable": [{"property": p, "reason": "check not built yet"} for p in props if p not in CHECKS],
}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
