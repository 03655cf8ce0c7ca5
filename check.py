#!/usr/bin/env python3
"""check.py PROPERTY: runs the check of one property (see DESIGN.md)."""
import sys, os, json, traceback, itertools, random
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *

REGISTRY = {}


def prop(pid):
    def deco(f):
        REGISTRY[pid] = f
        return f
    return deco


def per_version(c, module, cfgf, versions=VERSIONS, post=None, facet="full", tlc_workers=3, extra=(), heap="4g", share=True, most=None):
    """TLC on the module for each version, then replay of its records into the code of that version.
    post(version, rows) may select or add rows.  cfgf(version) gives the configuration.
    Versions whose tables are identical share one run of TLC."""
    groups, runs = {}, {}
    for v in versions:
        groups.setdefault(version_free_hash(v) + cfgf(v) if share else v, []).append(v)
    if not getattr(c, "_b", None):
        c.start_builds({v: [v] for v in versions})
    with ThreadPoolExecutor(6) as ex:
        futs = [(vs, ex.submit(c.tlc, module, cfgf(vs[0]), f"{c.pid}_{module}_{vs[0]}", vs[0], tlc_workers, 840, None, extra, heap, most))
                for vs in sorted(groups.values(), key=lambda x: -VERSIONS.index(x[0]))]
        for vs, f in futs:
            r = f.result()
            runs[vs[0]] = r
            for v in vs:
                rows = post(v, r.rows) if post else r.rows
                c.count("cases", len(rows))
                c.run_rows(v, c.exe(v), rows, facet)
    return runs


CODEC = """CONSTANT Depth = %d
CONSTANT Family = "%s"
CONSTANT Group = "%s"
CONSTANT Stride = %d
CONSTANT Offset = %d
SPECIFICATION Spec
INVARIANTS ValidAccepted Lossless Fixpoint ConstEnforced DropRefused
CHECK_DEADLOCK FALSE
"""


def codec_cfg(family, stride=None, group="all"):
    stride = stride or (1 if THOROUGH else 7)
    depth = 7 if THOROUGH else 5
    return lambda v: CODEC % (depth, family, group, stride, SEED % stride)


def tally(c, rows):
    for r in rows:
        c.count("label " + r["l"])
    return rows


@prop("C01")
def c01(c):
    def post(v, rows):
        for r in rows:      # the fixed codes of the error objects are C03's matter
            r["k"] = "" if r["k"] == "K3" else r["k"]
        return tally(c, [r for r in rows if r["ok"] and r["l"] != "lenient" and r["clear"]])
    per_version(c, "CodecMC", codec_cfg("valid"), post=post)


@prop("C02")
def c02(c):
    def post(v, rows):
        return tally(c, [r for r in rows if r["l"] != "const" and r.get("k") != "K3" and (r["clear"] or not r["ok"])])
    per_version(c, "CodecMC", codec_cfg("mutant"), post=post, facet="accept")


@prop("C03")
def c03(c):
    def post(v, rows):
        return tally(c, [r for r in rows if r["l"] == "const" or r.get("k") == "K3"])
    per_version(c, "CodecMC", codec_cfg("mutant"), post=post, facet="accept")
    calls(c)


def untagged(v):
    t = open(os.path.join(SPEC, v, "Schema.tla")).read()
    return set(re.findall(r'T_(\w+) == \[k\|->"(?:untag|dispatch|orelse|rtype)"', t))


@prop("C06")
def c06(c):
    un = {v: untagged(v) for v in VERSIONS}

    def post(v, rows):
        return tally(c, [r for r in rows if r["t"] in un[v] and r["clear"]])
    per_version(c, "CodecMC", codec_cfg("valid"), post=post, facet="variant")
    per_version(c, "CodecMC", codec_cfg("mutant"), post=post, facet="variant")
    calls(c)


API = """CONSTANT Depth = %d
CONSTANT Wanted = "%s"
CONSTANT Cap = %d
CONSTANT Turn = %d
SPECIFICATION Spec
INVARIANTS ThereAndBack IdRule OneKind CapsMonotone ElicitFaithful
CHECK_DEADLOCK FALSE
"""


def calls(c, pid=None, versions=VERSIONS):
    """The public functions that belong to the property."""
    cap = 20000 if THOROUGH else 1500

    def post(v, rows):
        c.count("functions " + v, len({r["f"] for r in rows}))
        return rows
    per_version(c, "ApiMC", lambda v: API % (7 if THOROUGH else 5, pid or c.pid, cap, SEED), versions=versions, post=post)


def codec(c, group, families=("valid", "mutant"), facet="full", stride=5, drop=("K2", "K3"), keep=lambda r: True):
    """The documents of a group of types."""
    def post(v, rows):
        return tally(c, [r for r in rows if r["clear"] and r["k"] not in drop and keep(r)])
    for fam in families:
        per_version(c, "CodecMC", codec_cfg(fam, group=group, stride=1 if THOROUGH else stride if fam == "mutant" else 1),
                    post=post, facet=facet)


@prop("C04")
def c04(c):
    codec(c, "messages", facet="kind")
    calls(c)


@prop("C05")
def c05(c):
    codec(c, "methods", facet="variant")
    calls(c)


@prop("C07")
def c07(c):
    codec(c, "results")
    calls(c)


@prop("C08")
def c08(c):
    codec(c, "envelopes")
    calls(c)


@prop("C09")
def c09(c):
    calls(c)


@prop("C10")
def c10(c):
    calls(c)


@prop("C11")
def c11(c):
    calls(c, versions=NEW)


@prop("C12")
def c12(c):
    calls(c, versions=VERSIONS[2:])


@prop("C13")
def c13(c):
    calls(c)
    per_version(c, "VersionMC", version_cfg("codes", 0), share=False)


CHAIN = """CONSTANT Depth = 5
CONSTANT MaxLen = %d
CONSTANT Vals = %d
SPECIFICATION Spec
INVARIANTS LastGiven MapKeeps Commute
CHECK_DEADLOCK FALSE
"""


VERSION = """CONSTANT Depth = 5
CONSTANT This = "%s"
CONSTANT Edits = %d
CONSTANT Stride = %d
CONSTANT Offset = %d
CONSTANT Part = "%s"
SPECIFICATION Spec
INVARIANTS OneToOne ChosenKnown
CHECK_DEADLOCK FALSE
"""


def version_cfg(part, edits, stride=1):
    return lambda v: VERSION % ("2026-07-28" if v == "draft" else v.replace("_", "-"), edits, stride, SEED % stride, part)


@prop("C14")
def c14(c):
    # the texts do not depend on the schema: many of them for one version, names and near misses for all
    per_version(c, "VersionMC", version_cfg("names", 1), share=False)
    per_version(c, "VersionMC", version_cfg("names", 2, 7 if THOROUGH else 60), versions=["2025_06_18"], heap="8g", tlc_workers=8)


@prop("C15")
def c15(c):
    calls(c)

    def short(v, rows):
        c.count("short histories", len(rows))
        return rows

    def long(v, rows):      # simulation prints every step that could be taken: keep one in a few
        rows = rows[SEED % 3::1 if THOROUGH else 3]
        c.count("long histories", len(rows))
        return rows
    per_version(c, "ChainMC", lambda v: CHAIN % ((4, 2) if THOROUGH else (3, 2)), post=short)
    n = 400 if THOROUGH else 40
    per_version(c, "ChainMC", lambda v: CHAIN % (14, 3), post=long, tlc_workers=1,
                extra=("-simulate", f"num={n}", "-depth", "15", "-seed", str(SEED)))


@prop("C16")
def c16(c):
    codec(c, "batches")
    calls(c)


FLOW = """CONSTANT Depth = 5
CONSTANT Rounds = %d
CONSTANT Starts = {%s}
SPECIFICATION Spec
INVARIANTS Echo MetaKept
CHECK_DEADLOCK FALSE
"""
TASKS = """CONSTANT Depth = 5
CONSTANT Moves = %d
CONSTANT Looks = %d
CONSTANT Starts = {%s}
SPECIFICATION Spec
INVARIANTS FinalIsFinal SeenHappened Related
CHECK_DEADLOCK FALSE
"""


def seeds(n):
    return ", ".join(str(SEED * 1000 + i) for i in range(n))


def conversations(c, kind):
    def f(v, rows):
        c.count(kind, len(rows))
        c.count("steps", sum(len(r["steps"]) for r in rows))
        return rows
    return f


@prop("C17")
def c17(c):
    calls(c, versions=NEW)
    per_version(c, "FlowMC", lambda v: FLOW % ((4, seeds(400)) if THOROUGH else (3, seeds(30))), versions=VERSIONS[4:],
                post=conversations(c, "input flows"))
    per_version(c, "TaskMC", lambda v: TASKS % ((3, 3, seeds(6)) if THOROUGH else (2, 2, seeds(3))), versions=["2025_11_25"],
                post=conversations(c, "task flows"))


@prop("C18")
def c18(c):
    codec(c, "all", families=("mutant",), facet="total", stride=11, drop=())
    calls(c)


def combination(r):
    """The features to ask for: those an alias stands for are left out."""
    on, al = set(r["on"]), set(r["aliased"])
    if "asdefault" in al:
        on -= {"2026_07_28", "schema_utils"}
    if "latest" in al:
        on -= {"2026_07_28"}
    return sorted(on | al)


def offered(o):
    return {"root": o["root"], "rootIs": sorted(o["rootIs"]), "rootUtils": sorted(o["rootUtils"]), "latest": o["latest"],
            "modules": {m[0]: {"version": m[1], "utils": m[2]} for m in o["modules"]}}


@prop("C19")
def c19(c):
    # every version behaves in company as the model of that version alone
    root, older = VERSIONS[3:], VERSIONS[:3]
    groups = [("old+" + x, older + [x]) for x in root]
    if THOROUGH:
        groups += [("+".join(p), list(p)) for p in itertools.combinations(older, 2)]
        groups += [(o + "+" + x, [o, x]) for o in older for x in root]
    c.start_builds(dict(groups))
    combos = c.tlc("FeatMC", "SPECIFICATION Spec\nINVARIANTS OneRoot RootIsModule AliasesMean\nCHECK_DEADLOCK FALSE\n", "C19_FeatMC").rows
    combos.sort(key=lambda r: (len(r["on"]), sorted(r["on"]), r["aliased"]))
    sets, rnd = {}, random.Random(SEED)
    for r in combos:
        sets.setdefault(tuple(combination(r)), r)
    every = list(sets)
    if THOROUGH:
        picked = every
    else:
        vs = lambda s: [f for f in s if f in VERSIONS]
        must = [(), ("asdefault",), tuple(sorted(older + ["latest"]))]
        must += [s for s in every if len(vs(s)) == 4 and "schema_utils" not in s and len(s) == 4]
        must += [s for s in every if len(s) == 1 and vs(s)]
        must += rnd.sample([s for s in every if s not in must and 2 <= len(vs(s)) <= 3], 3)
        picked = list(dict.fromkeys(m for m in must if m in sets))
    slots = 4

    def one(k):
        out = []
        for s in picked[k::slots]:
            try:
                out.append((s, build_combo(s, k)))
            except BuildFailed as e:
                out.append((s, str(e)))
        return out
    ex = ThreadPoolExecutor(slots)
    waiting = [ex.submit(one, k) for k in range(slots)]

    rows = {}

    def model(v):
        got = []
        for fam in ("valid", "mutant"):
            got += [r for r in c.tlc("CodecMC", CODEC % (5, fam, "all", 11 if THOROUGH else 41, SEED % 11), f"C19_{fam}_{v}", v, 2,
                                           most=None if THOROUGH else 1500).rows if r["clear"] and r["k"] == ""]
        for p in ("C04", "C05", "C08", "C09", "C10", "C13", "C15") if THOROUGH else ("C05", "C09", "C10"):
            got += [r for r in c.tlc("ApiMC", API % (5, p, 400 if THOROUGH else 30, SEED), f"C19_{p}_{v}", v, 2,
                                     most=None if THOROUGH else 1000).rows if not r.get("k")]
        return got
    named = {}
    for v in VERSIONS:
        named.setdefault(version_free_hash(v), []).append(v)
    with ThreadPoolExecutor(5) as pool:
        for vs_, got in zip(named.values(), pool.map(lambda x: model(x[0]), named.values())):
            for v in vs_:
                rows[v] = got
    for name, members in groups:
        try:
            exe = c._b[name].result()
        except BuildFailed as e:
            c.violation(name, "versions " + ", ".join(members) + " together", "do not build: " + str(e)[-600:], {})
            continue
        for v in members:
            c.count("behaviours in company", len(rows[v]))
            c.run_rows(v, exe, rows[v])
    for w in waiting:
        for s, got in w.result():
            c.count("combinations of features")
            if isinstance(got, str):
                c.violation("+".join(s), "features " + ", ".join(s), "do not build: " + got[:600], {"features": list(s)})
            elif {**got, "rootIs": sorted(got["rootIs"]), "rootUtils": sorted(got["rootUtils"])} != offered(sets[s]["offer"]):
                c.violation("+".join(s), "features " + ", ".join(s), f"offer {json.dumps(got)} instead of {json.dumps(offered(sets[s]['offer']))}", {"features": list(s)})


CONV = """CONSTANT Depth = 5
CONSTANT Budget = %d
CONSTANT Width = %d
CONSTANT Starts = {%s}
SPECIFICATION Spec
INVARIANTS OneAnswer Settled ReadAsBuilt AllFound AllAnswered
CHECK_DEADLOCK FALSE
"""


@prop("C20")
def c20(c):
    calls(c)
    per_version(c, "ConvMC", lambda v: CONV % (2, 1, seeds(3 if THOROUGH else 1)), post=conversations(c, "short conversations"), most=None if THOROUGH else 250)
    n, size = (1500, 14) if THOROUGH else (40, 8)
    per_version(c, "ConvMC", lambda v: CONV % (size, 2, seeds(50)), post=conversations(c, "long conversations"), tlc_workers=1,
                extra=("-simulate", f"num={n}", "-depth", "120", "-seed", str(SEED)))


def main():
    pid = sys.argv[1]
    c = Check(pid)
    try:
        REGISTRY[pid](c)
    except ToolError as e:
        print(f"error: {e}", file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    return c.finish(assumptions=getattr(c, "assume", ()), exhaustive=False)


if __name__ == "__main__":
    sys.exit(main())
