"""Which harness variants each check runs: (variant, static buffer size or None for the real one, cases, max seconds).
Variant "fuzz" is a coverage-guided search (libFuzzer) for that many seconds."""


def q(*runs):
    return list(runs)


CHECKS = {
    "C01": dict(src="c01.cpp", quick=q(("fast", "8", 15000, 30), ("asan", "64", 2500, 20), ("fast", None, 5000, 25)),
                thorough=q(("fast", "8", 150000, 500), ("fast", "32", 100000, 400), ("asan", "16", 20000, 400), ("asan", None, 4000, 400), ("fast", None, 40000, 700))),
    "C02": dict(src="c02.cpp", quick=q(("fast", "8", 15000, 30), ("fast", None, 5000, 25), ("asan", "64", 2000, 20)),
                thorough=q(("fast", "8", 150000, 500), ("fast", "64", 100000, 400), ("asan", "16", 20000, 400), ("fast", None, 40000, 700))),
    "C03": dict(src="c03.cpp", quick=q(("fast", "8", 15000, 30), ("fast", None, 5000, 25), ("asan", "64", 2000, 20)),
                thorough=q(("fast", "8", 150000, 500), ("fast", "64", 100000, 400), ("asan", "16", 20000, 400), ("fast", None, 40000, 700))),
    "C04": dict(src="c04.cpp", quick=q(("fast", "8", 15000, 30), ("fast", None, 5000, 25), ("asan", "64", 2000, 20)),
                thorough=q(("fast", "8", 150000, 500), ("fast", "64", 100000, 400), ("asan", "16", 20000, 400), ("fast", None, 40000, 700))),
    "C05": dict(src="c05.cpp", quick=q(("fast", "8", 10000, 30), ("fast", None, 3000, 30), ("asan", "64", 2000, 20)),
                thorough=q(("fast", "8", 60000, 500), ("fast", "2", 30000, 300), ("fast", "64", 30000, 300), ("asan", "16", 10000, 400), ("fast", None, 20000, 900))),
    "C06": dict(src="c06.cpp", quick=q(("asan", "64", 3000, 35), ("fast", None, 8000, 30)),
                thorough=q(("asan", "64", 30000, 900), ("asan", "8", 10000, 400), ("fast", None, 100000, 900))),
    "C07": dict(src="c07.cpp", quick=q(("fast", "8", 8000, 30), ("asan", "64", 1500, 25), ("fast", None, 4000, 25)),
                thorough=q(("fast", "8", 80000, 900), ("asan", "16", 20000, 900), ("fast", None, 40000, 700))),
    "C08": dict(src="c08.cpp", quick=q(("fast", "8", 12000, 25), ("asan", "64", 3000, 25), ("fast", None, 2500, 25)),
                thorough=q(("fast", "8", 100000, 600), ("asan", "16", 30000, 900), ("fast", None, 20000, 700))),
    "C09": dict(src="c09.cpp", quick=q(("fast", None, 20000, 45), ("asan", None, 2000, 15)),
                thorough=q(("fast", None, 400000, 1500), ("asan", None, 20000, 600))),
    "C10": dict(src="c10.cpp", quick=q(("fast", "8", 3000, 30), ("fast", None, 2000, 25), ("asan", "64", 600, 25)),
                thorough=q(("fast", "8", 60000, 900), ("fast", None, 40000, 700), ("asan", "16", 6000, 500))),
    "C11": dict(src="c11.cpp", quick=q(("fast", "8", 12000, 25), ("fast", None, 6000, 20), ("asan", "64", 2500, 25)),
                thorough=q(("fast", "8", 200000, 700), ("fast", None, 150000, 600), ("asan", "64", 30000, 800))),
    "C12": dict(src="c12.cpp", quick=q(("fast", "8", 3000, 40), ("fast", None, 1000, 20)),
                thorough=q(("fast", "8", 40000, 1300), ("fast", None, 15000, 600))),
    "C13": dict(src="c13.cpp", quick=q(("fast", None, 15000, 35), ("asan", None, 1500, 20)),
                thorough=q(("fast", None, 300000, 1500), ("asan", None, 20000, 500))),
    "C14": dict(src="c14.cpp", quick=q(("fast", None, 20000, 30), ("asan", None, 2000, 20)),
                thorough=q(("fast", None, 500000, 1300), ("asan", None, 40000, 700))),
    "C15": dict(src="c15.cpp", quick=q(("fast", None, 500000, 20), ("asan", None, 120000, 20)),
                thorough=q(("fast", None, 20000000, 900), ("asan", None, 3000000, 600))),
    "C16": dict(src="c16.cpp", quick=q(("fast", None, 400000, 20), ("asan", None, 300000, 20)),
                thorough=q(("fast", None, 10000000, 900), ("asan", None, 5000000, 600))),
    "C17": dict(src="c17.cpp", quick=q(("fast", "8", 1500000, 20), ("fast", None, 1000000, 15), ("asan", "64", 400000, 20)),
                thorough=q(("fast", "8", 40000000, 900), ("fast", None, 20000000, 500), ("asan", "16", 6000000, 700))),
    "C18": dict(src="c18.cpp", quick=q(("fast", "8", 12000, 25), ("asan", "64", 2000, 20), ("fast", None, 6000, 20)),
                thorough=q(("fast", "8", 300000, 700), ("fast", "2", 100000, 300), ("asan", "16", 30000, 600), ("fast", None, 100000, 500))),
    "C19": dict(src="c19.cpp", quick=q(("fast", None, 500000, 20), ("asan", None, 120000, 20)),
                thorough=q(("fast", None, 10000000, 900), ("asan", None, 3000000, 600))),
    "C20": dict(src="c20.cpp", quick=q(("fast", "8", 4000, 35), ("asan", "64", 1000, 25)),
                thorough=q(("fast", "8", 60000, 900), ("asan", "16", 10000, 900), ("fast", None, 8000, 500))),
}
# C12 brings its own allocator, which the fuzzing build cannot have
FUZZ = {"C01": "16", "C02": "16", "C03": "16", "C04": "16", "C05": "16", "C06": "16", "C07": "16", "C08": "16", "C09": None, "C10": "64",
        "C11": "64", "C13": None, "C14": None, "C15": None, "C16": None, "C17": "16", "C18": "8", "C19": None}
for _id, _buf in FUZZ.items():
    CHECKS[_id]["thorough"].append(("fuzz", _buf, 0, 600))
