"""Shared machinery of the checks: run TLC on a specification module, build and drive the
conformance harness, compare the harness's outcomes with the specification's."""
import glob
import json, os, re, shutil, subprocess, sys, threading, time, hashlib
from concurrent.futures import ThreadPoolExecutor
from multiprocessing import Pool

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(ROOT, ".build")
SPEC = os.path.join(ROOT, "spec")
EVID = os.path.join(ROOT, "evidence")
VERSIONS = ["2024_11_05", "2025_03_26", "2025_06_18", "2025_11_25", "2026_07_28", "draft"]
OLD, NEW = VERSIONS[:3], VERSIONS[3:]
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
TLA = "/opt/veriftools/tla"


class ToolError(Exception):
    pass


# ------------------------------------------------------------------ symbolic strings -------
UNI = "\u00e9\u4e2d\U0001F600 \"q\\\\\u2028/\u0301\u00df"
LONG = "long-" + "x\u00e9" * 3000
CTRL = "a\u0000b\u0001\n\r\t\u0008\u000c\u007f\u001f"


def sep(x, to):
    return re.sub(r"[-_/ ]|(?<=[a-z])(?=[A-Z])", to, x).lower()


SPELL = {"$^": str.swapcase, "$+": lambda x: x[:1].upper() + x[1:], "$-": lambda x: x[:-1], "$4": lambda x: x[:4],
         "$3": lambda x: x[:3], "$h": lambda x: x[:(len(x) + 1) // 2], "$_": lambda x: sep(x, "_"),
         "$k": lambda x: sep(x, "-")}


def words():
    """Every enumerated or fixed text of any version: no altered spelling may hit one of them."""
    if not _WORDS:
        for v in VERSIONS:
            t = open(os.path.join(SPEC, v, "Schema.tla")).read()
            _WORDS.update(re.findall(r'<<"cs","([^"]*)">>', t))
            for l in re.findall(r'k\|->"unit",v\|->(<<.*?>>)\]', t, re.S):
                _WORDS.update(re.findall(r'<<"([^"]*)",', l))
    return _WORDS


_WORDS = set()


def tok(s):
    if "$" not in s:
        return s
    if s == "$schema":
        return s
    if s == "$U":
        return UNI
    if s == "$L":
        return LONG
    if s == "$C":
        return CTRL
    f = SPELL.get(s[:2])
    if f:
        t = f(s[2:])
        return s if t == s[2:] or t in words() else t       # unchanged: an unrelated text
    return s


class Num:
    """A number of a document, kept with its class (see JValue.tla)."""


def plain(d):
    """Tagged document -> JSON value."""
    k = d[0]
    if k == "@":
        return {"@": [d[1], d[2]]}
    if k == "s":
        return tok(d[1])
    if k == "cat":
        return cat(d[1])
    if k == "n":
        return int(d[2]) if d[1] in ("i", "u") else float(d[2])
    if k == "b":
        return d[1]
    if k == "z":
        return None
    if k == "a":
        return [plain(x) for x in d[1]]
    if k == "o":
        return {tok(a): plain(b) for a, b in d[1].items()} if isinstance(d[1], dict) else {}
    raise ToolError(f"bad tagged document {d!r}")


def same(a, b):
    """Strict JSON equality: 1, 1.0 and true are different."""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(v, b[k]) for k, v in a.items())
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def about(a, b):
    """b is a up to optional members written as null or empty, and 2 against 2.0."""
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, dict) and isinstance(b, dict):
        return all(k in a or b[k] is None for k in b) and all(
            about(v, b[k]) if k in b else v in (None, [], {}) for k, v in a.items())
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(about(x, y) for x, y in zip(a, b))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return float(a) == float(b)
    return type(a) is type(b) and a == b


class Dup(Exception):
    pass


def _pairs(ps):
    d = {}
    for k, v in ps:
        if k in d:
            raise Dup(k)
        d[k] = v
    return d


def parse_out(text):
    return json.loads(text, object_pairs_hook=_pairs)


def cat(parts):
    return "".join(tok(x) for x in parts)


# What may stand around a document (spec/Call.tla, FromStrCall); "again" is the document once more.
AROUND = {"": "", "spaces": "  ", "tab": "\t", "newline": "\n\n", "return": "\r", "other": "", "bom": "\ufeff", "nul": "\0",
          "nbsp": "\u00a0", "formfeed": "\f", "vtab": "\v", "linesep": "\u2028", "comma": ",", "colon": ":", "quote": '"',
          "brace": "}", "bracket": "]", "comment": "/* */", "null": " null ", "zero": " 0 ", "letter": "x", "backslash": "\\",
          "semicolon": ";", "prefix": ")]}',\n"}


def respell(d):
    """The same document: members the other way round, every text escaped, many spaces."""
    if isinstance(d, str):
        u = d.encode("utf-16-be")
        return '"' + "".join("\\u%02X%02x" % (u[i], u[i + 1]) for i in range(0, len(u), 2)) + '"'
    if isinstance(d, list):
        return "[\n" + " ,".join(respell(x) for x in d) + "]"
    if isinstance(d, dict):
        return "{ " + ",\r\n\t".join(respell(k) + " : " + respell(v) for k, v in reversed(d.items())) + "}"
    return json.dumps(d)


def arg(v):
    """Model argument -> harness argument."""
    k = v[0]
    if k == "@":
        return {"@": [v[1], v[2]]}
    if k == "cat":
        return ["s", cat(v[1])]
    if k == "js":
        return ["s", json.dumps(plain(v[1]), ensure_ascii=False)]
    if k == "wrap":
        d = plain(v[2])
        t = respell(d) if "other" in (v[1], v[3]) else json.dumps(d, ensure_ascii=False)
        return ["s", AROUND.get(v[1], t) + t + AROUND.get(v[3], t)]
    if k == "d" or k == "j":
        return ["j", plain(v[1])]
    if k == "s":
        return ["s", tok(v[1])]
    if k == "n":
        return ["n", int(v[2]) if v[1] in ("i", "u") else float(v[2])]
    if k == "b" or k == "N" or k == "U":
        return v
    if k == "J":
        return ["J", arg(v[1])]
    if k == "V":
        return ["V", [arg(x) for x in v[1]]]
    if k == "M":
        return ["M", {tok(a): arg(b) for a, b in v[1].items()} if isinstance(v[1], dict) else {}]
    if k == "S":
        return ["S", {a: arg(b) for a, b in v[1].items()} if isinstance(v[1], dict) else {}]
    if k == "E":
        return ["E", v[1], arg(v[2]) if len(v) > 2 else ["N"]]
    raise ToolError(f"bad argument {v!r}")


def match(e, a):
    """Expected (model) value against the harness's view.  Only the members the harness can see
    are compared."""
    if e is None or a is None:
        return e is a
    k = e[0]
    if k == "any":
        return True
    if not isinstance(a, list) or not a:
        return False
    if k == "j":
        return a[0] == "j" and (e[1] == ["any"] or same(plain(e[1]), a[1]))
    if k == "n":
        return a[0] == "n" and same(plain(e), a[1])
    if k == "s":
        return a[0] == "s" and tok(e[1]) == a[1]
    if k == "b":
        return a[0] == "b" and a[1] is e[1]
    if k == "N":
        return a[0] == "N"
    if k == "J":
        return a[0] == "J" and match(e[1], a[1])
    if k in ("V", "I"):
        return a[0] in ("V", "I") and len(e[1]) == len(a[1]) and all(match(x, y) for x, y in zip(e[1], a[1]))
    if k == "M":
        em = e[1] if isinstance(e[1], dict) else {}
        return a[0] == "M" and {tok(x) for x in em} == set(a[1]) and all(match(v, a[1][tok(x)]) for x, v in em.items())
    if k == "S":
        em = e[1] if isinstance(e[1], dict) else {}
        return a[0] == "S" and all(f in em and match(em[f], v) for f, v in a[1].items())
    if k == "E":
        if a[0] == "U":
            return a[1] == e[1]
        return a[0] == "E" and a[1] == e[1] and (len(e) < 3 or match(e[2], a[2]))
    if k == "U":
        return a[0] in ("U", "E") and a[1] == e[1]
    if k == "X":
        if len(e) < 3:
            return a[0] == "X"
        return a[0] == "X" and a[1] == e[1] and match(e[2], ["s", a[2]])
    if k == "cat":
        return a[0] == "s" and cat(e[1]) == a[1]
    if k == "js":
        if a[0] != "s":
            return False
        try:
            return same(plain(e[1]), parse_out(a[1]))
        except (ValueError, Dup):
            return False
    if k == "bag":
        if a[0] not in ("V", "I") or len(a[1]) != len(e[1]):
            return False
        left = list(a[1])
        for x in e[1]:
            i = next((i for i, y in enumerate(left) if match(x, y)), None)
            if i is None:
                return False
            del left[i]
        return True
    if k in ("ok", "err"):
        return a[0] == k and (len(e) < 2 or match(e[1], a[1]))
    if k == "R":
        return a[0] == "R" and match(e[1], a[1]) and match(e[2], a[2])
    raise ToolError(f"bad expectation {e!r}")


# ------------------------------------------------------------------ TLC --------------------
def version_free_hash(v):
    t = "".join(open(os.path.join(SPEC, v, f + ".tla")).read() for f in ("Schema", "Api")).replace(v, "V")
    return hashlib.sha256(t.encode()).hexdigest()


class TlcRun:
    def __init__(self, rows, states, transitions, text):
        self.rows, self.states, self.transitions, self.text = rows, states, transitions, text


def tlc(module, cfg, name, version=None, workers=4, timeout=840, env=None, extra=(), heap="4g", most=None):
    """Runs TLC; returns its printed JSON records and counts.  A violated invariant or any error of
    TLC is an error of the machinery (the specification contradicts itself), never a violation."""
    d = os.path.join(BUILD, "tlc", name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    cfgf = os.path.join(d, "run.cfg")
    open(cfgf, "w").write(cfg)
    lib = SPEC + (":" + os.path.join(SPEC, version) if version else "")
    cmd = ["java", "-XX:+UseParallelGC", "-Xss256m", f"-Xmx{heap}", f"-DTLA-Library={lib}", "-cp",
           f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar", "tlc2.TLC", "-workers", str(workers),
           "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE", "-config", cfgf, *extra,
           os.path.join(SPEC, module + ".tla")]
    out = os.path.join(d, "out.txt")
    e = dict(os.environ)
    e.update(env or {})
    for turn in (1, 2):
        with open(out, "w") as f:
            try:
                rc = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, timeout=timeout, env=e, cwd=d).returncode
            except subprocess.TimeoutExpired:
                raise ToolError(f"TLC on {module} ({name}) ran out of time")
        if rc not in (-15, -9, 143, 137) or turn == 2:      # ended from outside: once more
            break
        shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
    rows, rest = [], []
    with open(out) as f:
        for l in f:
            if l.startswith('"{'):
                rows.append(l)
            elif len(rest) < 4000:
                rest.append(l)
    if most and len(rows) > most:       # evenly thinned
        rows = [rows[i * len(rows) // most] for i in range(most)]
    rows = [json.loads(json.loads(l)) for l in rows]
    text = "".join(rest)
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", text)
    simulate = "-simulate" in extra
    if simulate:
        m2 = re.findall(r"(\d+) states checked", text)
        if rc not in (0,) or "Error:" in text:
            raise ToolError(f"TLC on {module} ({name}) failed rc={rc}: {text[-3000:]}")
        n = int(m2[-1]) if m2 else len(rows)
        r = TlcRun(rows, n, n, text)
    else:
        if rc != 0 or not m or "Error:" in text:
            raise ToolError(f"TLC on {module} ({name}) failed rc={rc}: {text[-3000:]}")
        r = TlcRun(rows, int(m.group(2)), int(m.group(1)), text)
    shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
    try:
        os.remove(out)
    except OSError:
        pass
    return r


# ------------------------------------------------------------------ harness ----------------
class BuildFailed(Exception):
    pass


def feats(vs):
    return ["v" + v for v in vs]


def build(vs, name=None, jobs=None):
    """Builds the harness with the given schema versions from /repo's working tree."""
    name = name or "+".join(vs)
    td = os.path.join(BUILD, "t_" + name)
    env = dict(os.environ, CARGO_TARGET_DIR=td, CARGO_PROFILE_DEV_DEBUG="0", CARGO_NET_OFFLINE="true",
               CARGO_INCREMENTAL="0", RUSTFLAGS="-Awarnings")
    cmd = ["cargo", "build", "--offline", "--quiet", "--manifest-path", os.path.join(ROOT, "harness", "Cargo.toml"),
           "--features", ",".join(feats(vs))]
    if jobs:
        cmd += ["-j", str(jobs)]
    p = subprocess.run(cmd, env=env, capture_output=True, text=True)
    if p.returncode != 0:
        raise BuildFailed(p.stderr[-6000:])
    return os.path.join(td, "debug", "conform")


def build_combo(features, slot):
    """Builds and runs the probe crate with these features of the crate under test."""
    td = os.path.join(BUILD, f"combo{slot}")
    env = dict(os.environ, CARGO_TARGET_DIR=td, CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0", RUSTFLAGS="-Awarnings")
    p = subprocess.run(["cargo", "build", "--offline", "--quiet", "--manifest-path", os.path.join(ROOT, "combos", "Cargo.toml"),
                        "--features", ",".join(features)], env=env, capture_output=True, text=True)
    if p.returncode != 0:
        raise BuildFailed(p.stderr[-3000:])
    r = subprocess.run([os.path.join(td, "debug", "combos")], capture_output=True, text=True)
    for f in glob.glob(os.path.join(td, "debug", "**", "*mcp_schema*"), recursive=True) + glob.glob(os.path.join(td, "debug", "**", "*combos*"), recursive=True):
        if os.path.isfile(f):       # one library per feature set would fill the disk
            os.remove(f)
    if r.returncode != 0:
        raise BuildFailed("the probe fails: " + r.stderr[-500:])
    return json.loads(r.stdout)


def weight(rows):
    return sum(len(r["steps"]) if r.get("op") == "conv" else 1 for r in rows)


def drive(exe, cmds, parts=6):
    """Feeds the commands to the harness, in a few processes; returns the outcomes in order."""
    if not cmds:
        return []
    n = max(1, min(parts, len(cmds), weight(cmds) // 400))
    step = (len(cmds) + n - 1) // n
    chunks = [cmds[i:i + step] for i in range(0, len(cmds), step)]

    def one(ch):
        data = "\n".join(json.dumps(c, ensure_ascii=True) for c in ch) + "\n"
        try:
            p = subprocess.run([exe], input=data.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600)
        except subprocess.TimeoutExpired:
            # the code under test hangs on some command: find it
            return find_hang(exe, ch)
        outs = [json.loads(l) for l in p.stdout.decode().split("\n") if l]
        if len(outs) != len(ch):
            # the process died (abort, stack overflow): the command after the last answer is to blame
            outs.append({"panic": f"process ended with {p.returncode}: {p.stderr.decode()[-300:]}"})
            if len(outs) < len(ch):
                outs += one(ch[len(outs):])
        return outs

    with ThreadPoolExecutor(n) as ex:
        return [o for part in ex.map(one, chunks) for o in part]


def find_hang(exe, ch):
    outs = []
    for c in ch:
        try:
            p = subprocess.run([exe], input=(json.dumps(c) + "\n").encode(), stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, timeout=30)
            ls = [l for l in p.stdout.decode().split("\n") if l]
            outs.append(json.loads(ls[0]) if ls else {"panic": f"process ended with {p.returncode}"})
        except subprocess.TimeoutExpired:
            outs.append({"panic": "hangs"})
        if len(outs) > 2000:
            break
    outs += [{"panic": "not run after a hang"}] * (len(ch) - len(outs))
    return outs


# ------------------------------------------------------------------ comparing --------------
def command(ver, r):
    """The harness command of a model record."""
    if r["op"] == "codec":
        return {"ver": ver, "op": "codec", "t": r["t"], "d": plain(r["d"])}
    if r["op"] == "call":
        return {"ver": ver, "op": "call", "f": r["f"], "s": arg(r["s"]) if r.get("s") else None,
                "a": [arg(x) for x in r.get("a", [])]}
    if r["op"] == "chain":
        return {"ver": ver, "op": "chain", "t": r["t"], "s": arg(r["s"]),
                "c": [[m[0], [arg(x) for x in m[1]]] for m in r["c"]]}
    if r["op"] == "version":
        return {"op": "version", "f": r["f"], "a": [arg(x) for x in r["a"]]}
    if r["op"] == "consts":
        return {"ver": ver, "op": "consts"}
    if r["op"] == "conv":
        return {"op": "conv", "steps": [command(ver, x) for x in r["steps"]]}
    raise ToolError("bad record " + json.dumps(r)[:200])


def cmp_codec(r, a, facet):
    """None if the outcome a agrees with the record, "known" for a known finding, else what differs."""
    if "panic" in a:
        return "panics: " + a["panic"]
    if "harness" in a:
        raise ToolError(a["harness"] + " on " + json.dumps(r)[:600])
    k = r.get("k", "")
    if "split" in a:
        return "text, value and byte decoding disagree"
    if facet == "total":
        if a["ok"]:
            if "oerr" in a or "osplit" in a:
                return "cannot be encoded consistently"
            try:
                parse_out(a["o"])
            except Dup as e:
                return f"encodes with member {e} twice"
        return None
    if a["ok"] is not r["ok"]:
        if k == "K3" and not a["ok"]:
            return None
        return "is refused" if r["ok"] else "is accepted (as %s)" % json.dumps(a.get("v"))[:200]
    if not a["ok"]:
        return "known" if k == "K3" else None
    if k == "K3":
        return "known"
    if "oerr" in a or "osplit" in a:
        return "cannot be encoded consistently"
    try:
        o = parse_out(a["o"])
    except Dup as e:
        return f"encodes with member {e} twice"
    if facet == "kind":
        if r["v"][0] == "E" and r["v"][:2] != a["v"][:2]:
            return "is classified as %s instead of %s" % (json.dumps(a["v"])[:200], json.dumps(r["v"])[:200])
        return None
    want = plain(r["o"])
    if facet == "full":
        if not same(o, want):
            if k in ("K1", "K2") and about(plain(r["d"]), o):
                return None
            return "encodes as %s instead of %s" % (a["o"][:300], json.dumps(want)[:300])
    if not match(r["v"], a["v"]):
        if k == "K2" and about(plain(r["d"]), o):
            return None
        return "decodes to %s instead of %s" % (json.dumps(a["v"])[:300], json.dumps(r["v"])[:300])
    if facet == "full" and r["fix"] and a["again"] != [True, True]:
        return "changes when decoded and encoded once more: %s" % json.dumps(a["again"])[:200]
    if facet == "full":
        return "known" if k in ("K1", "K2") else None
    return "known" if facet == "variant" and k == "K2" else None


def cmp_call(r, a):
    if "panic" in a:
        if r["v"] == ["panic"]:
            return None
        return "panics: " + a["panic"]
    if "harness" in a:
        if r["v"] == ["panic"]:
            return "does not panic"
        raise ToolError(a["harness"] + " on " + json.dumps(r)[:600])
    if r["op"] == "consts":
        for n, v in r["v"]:
            if n not in a["v"][1] or not same(a["v"][1][n], plain(v)):
                return f"{n} is {a['v'][1].get(n)!r} instead of {plain(v)!r}"
        return None
    k = r.get("k", "")
    if not match(r["v"], a["v"]):
        if k and r.get("v2") and match(r["v2"], a["v"]):
            return None
        return "gives %s instead of %s" % (json.dumps(a["v"])[:500], json.dumps(r["v"])[:500])
    if r.get("o") and isinstance(a.get("o"), str):
        try:
            o = parse_out(a["o"])
        except Dup as e:
            return f"encodes with member {e} twice"
        if not same(o, plain(r["o"][0])):
            return "encodes as %s instead of %s" % (json.dumps(o)[:300], json.dumps(plain(r["o"][0]))[:300])
    return "known" if k else None


def cmp_conv(r, a, facet):
    """The first step that does not turn out as the specification says."""
    if "outs" not in a:
        if "panic" in a:
            return "panics: " + a["panic"]
        raise ToolError(json.dumps(a)[:300])
    for i, (x, y) in enumerate(zip(r["steps"], a["outs"])):
        d = cmp_codec(x, y, facet) if x["op"] == "codec" else cmp_call(x, y)
        if d and d != "known":
            return f"step {i + 1} of {len(r['steps'])}, {what(x)}: {d}"
    return None


def compare(args):
    """[(record, outcome)] -> list of (index, difference)"""
    pairs, facet = args
    bad = []
    for i, (r, a) in enumerate(pairs):
        try:
            x = cmp_codec(r, a, facet) if r["op"] == "codec" else cmp_conv(r, a, facet) if r["op"] == "conv" else cmp_call(r, a)
        except ToolError as e:
            return ("error", str(e))
        if x:
            bad.append((i, x))
    return ("ok", bad)


# ------------------------------------------------------------------ a check ----------------
def read_known():
    known, p = {}, os.path.join(ROOT, "known_findings.txt")
    for l in open(p):
        m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
        if m:
            known[(m.group(1), m.group(2))] = m.group(3)
    return known


class Check:
    def __init__(self, pid):
        self.pid, self.t0 = pid, time.time()
        self.states = self.transitions = self.traces = 0
        self.viol, self.samples, self.found = [], [], {}
        self.counts = {}
        self.notes = []
        self.pool = None
        self.exes = {}

    # -- building, in the background while TLC runs
    def start_builds(self, groups):
        """groups: name -> versions"""
        self._b = {}
        ex = ThreadPoolExecutor(len(groups))
        for name, vs in groups.items():
            self._b[name] = ex.submit(build, vs, name, None)

    def exe(self, name):
        try:
            return self._b[name].result()
        except BuildFailed as e:
            raise ToolError("the harness does not build: " + str(e))

    def run_rows(self, ver, exe, rows, facet="full", key=None):
        """Replays model records of one version into the code."""
        if not rows:
            raise ToolError(f"no cases for {ver}")
        cmds = [command(ver, r) for r in rows]
        outs = drive(exe, cmds)
        self.traces += len(rows)
        n = max(1, min(8, len(rows), weight(rows) // 2500))
        step = (len(rows) + n - 1) // n
        parts = [(list(zip(rows[i:i + step], outs[i:i + step])), facet) for i in range(0, len(rows), step)]
        res = self.pool_map(compare, parts)
        for pi, (st, bad) in enumerate(res):
            if st == "error":
                raise ToolError(bad)
            for i, x in bad:
                j = pi * step + i
                r = rows[j]
                if x == "known":
                    self.found.setdefault(r["k"], []).append((ver, r, cmds[j], outs[j]))
                else:
                    self.violation(ver, what(r), x, {"command": cmds[j], "expected": {q: r.get(q) for q in ("ok", "v", "o")},
                                                     "got": outs[j], "label": r.get("l")})
        if rows and len(self.samples) < 12:
            import random
            rnd = random.Random(SEED)
            for j in rnd.sample(range(len(rows)), min(2, len(rows))):
                self.samples.append({"version": ver, "command": trim(cmds[j]), "outcome": trim(outs[j])})

    def pool_map(self, f, xs):
        if len(xs) <= 1:
            return [f(x) for x in xs]
        with Pool(min(8, len(xs))) as p:
            return p.map(f, xs)

    def violation(self, ver, subject, diff, data):
        self.viol.append({"version": ver, "subject": subject, "difference": diff, **data})

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def tlc(self, *a, **k):
        r = tlc(*a, **k)
        self.states += r.states
        self.transitions += r.transitions
        return r

    def finish(self, assumptions=(), exhaustive=False):
        os.makedirs(EVID, exist_ok=True)
        known = read_known()
        for k, occ in sorted(self.found.items()):
            if (self.pid, k) in known:
                vs = sorted({o[0] for o in occ})
                print(f"KNOWN-FINDING: property={self.pid} {k}: {known[(self.pid, k)]} (seen {len(occ)} times; versions {' '.join(vs)})")
            else:
                ver, r, c, o = occ[0]
                self.violation(ver, what(r), f"finding {k} is not listed for this property", {"command": c, "got": o})
        ev = {"property": self.pid, "tier": TIER, "seed": SEED, "level": "model_checking",
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.traces, "samples": self.samples[:12],
                           "exhaustive": exhaustive, **({"rule": json.dumps(self.counts, sort_keys=True)} if self.counts else {})},
              "assumptions": list(assumptions), "wall_s": round(time.time() - self.t0, 1), "violations": len(self.viol)}
        json.dump(ev, open(os.path.join(EVID, self.pid + ".json"), "w"), indent=1)
        rp = os.path.join(EVID, f"replay_{self.pid}.json")
        if self.viol:
            json.dump(self.viol[:200], open(rp, "w"), indent=1)
            for v in self.viol[:5]:
                print(f"  {v['version']}: {v['subject']} {v['difference']}"[:1500])
            print(f"VIOLATION property={self.pid} replay={rp}")
            print(f"{len(self.viol)} disagreements; replay one with: python3 {ROOT}/replay.py {rp} N")
            return 1
        if os.path.exists(rp):
            os.remove(rp)
        print(f"ok {self.pid}: {self.states} states, {self.transitions} transitions, {self.traces} traces against the code, "
              f"{ev['wall_s']} s; {json.dumps(self.counts, sort_keys=True)}")
        return 0


def what(r):
    if r["op"] == "codec":
        return f"{r['t']} [{r.get('l')}] {json.dumps(plain(r['d']))[:400]}"
    if r["op"] == "conv":
        return "conversation of %d steps" % len(r["steps"])
    if r["op"] == "chain":
        return f"{r['t']}: " + " ; ".join(f"{m[0]}({', '.join(json.dumps(x) for x in m[1])})" for m in r["c"])[:500]
    if r["op"] == "consts":
        return "the constants"
    return f"{r['f']} on {json.dumps(r.get('s'))[:300]} with {json.dumps(r.get('a'))[:300]}"


def trim(x):
    s = json.dumps(x)
    return x if len(s) < 700 else s[:700] + " ..."
