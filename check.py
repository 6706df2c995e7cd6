#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]   decide one property on /repo's current source.

1. vx extracts the functions under contract from /repo/src (contracts/*.vc say which, and with
   which contracts) and Verus is run on the result: the deciding step.
2. The replay program (built against /repo) runs the real code against executable versions of the
   same specifications: it looks for a failing input when an obligation fails, cross-checks the
   contracts and the trusted base otherwise, and stands in (bounded) for functions that a change
   has put out of the verifier's reach.
Exit 0: the property held on everything explored. Exit 1 with a VIOLATION line: it does not.
"""
import json, os, re, subprocess, sys, threading, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VX_REPO", "/repo")
BUILD = os.path.join(V, "build")
EVID = os.path.join(V, "evidence")
UNITS = {
    "misc": ["C17", "C18", "C19", "C22"],
    "pgs": ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08"],
    "vobsub": ["C09", "C10", "C11", "C12", "C13", "C14", "C16"],
    "vobimg": ["C13", "C14", "C15", "C16"],
    "idx": ["C20", "C21", "C23"],
    "dump": ["C24"],
}
# properties about panics and termination: a failing functional contract is not by itself a violation
# of them (the functions that rely on it are then undecided), unless its clause is tagged with them
SAFETY = ("C08", "C16")
SAFETY_MSG = ("precondition not satisfied", "possible arithmetic", "possible division", "possible bit shift", "decreases",
              "out of bounds", "assertion failure")
RLIMIT = "60"
GENUINE = ("postcondition not satisfied", "precondition not satisfied", "assertion failed",
           "invariant not satisfied", "possible arithmetic", "possible division", "possible bit shift",
           "loop must have a decreases", "decreases not satisfied", "possible out of bounds", "may be out of bounds",
           "requires not satisfied", "cannot show", "unable to prove", "recommendation not met", "does not satisfy", "assertion failure",
           "could not prove", "not satisfied", "possible ")


def sh(cmd, cwd=None, timeout=None, env=None):
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=cwd, timeout=timeout, env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True, errors="replace", start_new_session=True)
        return p.returncode, p.stdout, p.stderr, time.time() - t0
    except subprocess.TimeoutExpired as e:
        dec = lambda b: b.decode(errors="replace") if isinstance(b, bytes) else (b or "")
        return 124, dec(e.stdout), dec(e.stderr), time.time() - t0


def cargo_env():
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e.pop("RUSTFLAGS", None)
    return e


def build_vx():
    d = os.path.join(V, "tools/vx")
    rc, o, e, _ = sh(["cargo", "build", "--offline", "--release", "-q"], cwd=d, env=cargo_env())
    if rc:
        die("vx does not build:\n" + e)
    return os.path.join(d, "target/release/vx")


def build_replay():
    d = os.path.join(V, "replay")
    plain = threading.Thread(target=lambda: sh(["cargo", "build", "--offline", "-q", "--profile", "plain"], cwd=d, env=cargo_env()))
    plain.start()
    rc, o, e, _ = sh(["cargo", "build", "--offline", "-q"], cwd=d, env=cargo_env())
    plain.join()
    return (os.path.join(d, "target/debug/replay"), None) if rc == 0 else (None, e)


def die(msg):
    print(msg, file=sys.stderr)
    sys.exit(2)


# ---------------------------------------------------------------- verus

def spans(d):
    out = [(s["line_start"], s["line_end"], s.get("is_primary"), s.get("label") or "", s["file_name"]) for s in d.get("spans", [])]
    for c in d.get("children", []):
        out += spans(c)
    return out


# What a function may call, beyond what it called when its contract was written, without
# putting the verifier's answer in doubt: their contracts in vstd say all there is to say.
EXACT = re.compile(r"^((wrapping|checked|saturating)_(add|sub|mul)|len|is_empty|is_(some|none|ok|err)|unwrap(_or)?|expect|push|pop|clear|truncate"
                   r"|((std::)?io::)?Read::(read_to_end|take)|read_to_end|wrapping_neg|abs|unsigned_abs|abs_diff|signum|is_negative|is_positive|min|max|clamp|is_multiple_of|[ui](16|32)::from_[bl]e_bytes|(std::)?cmp::(min|max)"
                   r"|or|and|xor|zip|copied|take|replace|unwrap_or_default|then_some|starts_with|ends_with|swap|insert|remove|is_ascii_(digit|lowercase|uppercase|alphabetic|alphanumeric)"
                   r"|[ui](8|16|32|64|size)::(MAX|MIN|BITS)|clone|as_ref|as_slice|map|map_err|ok_or|parse|\w+_streaming|le_u16|vx_create_dir|create_dir_all|[ui](16|32|64|size)::from|Vec::new|Vec::with_capacity|Some|Ok|Err|([A-Z]\w*|crate|self)::[A-Z]\w*)$")
INVENTORY = os.path.join(V, "contracts/inventory.json")


def foreign(unit, f, fns):
    """Callees and closures of f unknown to its contract: an obligation that fails next to one of
    them may fail because the verifier knows too little about them."""
    try:
        base = json.load(open(INVENTORY))[unit].get(f["key"])
    except (OSError, ValueError, KeyError):
        base = None
    if base is None:
        return []
    own = {g["key"].split("#", 1)[1].split("::")[-1].split(">")[-1] for g in fns}
    new = [n for n in f["names"] if n not in base["names"] and not EXACT.match(n) and n.split("::")[-1] not in own]
    if f["closures"] > base["closures"]:
        new.append("%d closures instead of %d" % (f["closures"], base["closures"]))
    return new + f["renames"]


class Unit:
    """One extraction + verification of a contract unit."""

    def __init__(self, name, vx, extra=(), vargs=()):
        self.name, self.vx, self.extra, self.vargs = name, vx, list(extra), list(vargs)
        self.stubs = {}      # key -> why
        self.undecided = None
        self.errors = []     # {fn, msg, lines, text, rendered, genuine}
        self.fns = []
        self.breakdown = {}
        self.verified = 0
        self.smt_ms = 0
        self.wall = 0.0
        self.lines = []
        self.cmd = ""
        self.retries = 0

    def fn_at(self, line):
        for f in self.fns:
            a, b = f["out_lines"]
            if a <= line <= b:
                return f
        return None

    def run(self):
        t0 = time.time()
        os.makedirs(BUILD, exist_ok=True)
        tag = self.name + "".join(self.extra).replace("-", "_")
        rs = os.path.join(BUILD, tag + ".rs")
        mp = os.path.join(BUILD, tag + ".json")
        self.rs = rs
        for _ in range(12):
            cmd = [self.vx, os.path.join(V, "contracts", self.name + ".vc"), "--repo", REPO, "--out", rs, "--map", mp, "--base", INVENTORY] + self.extra
            for k in self.stubs:
                cmd += ["--stub", k]
            rc, o, e, _ = sh(cmd)
            if rc:
                self.undecided = "extraction failed: " + e.strip()[-2000:]
                break
            m = json.load(open(mp))
            self.fns, self.lost, self.notes = m["functions"], m["lost"], m["notes"]
            for f in self.fns:
                f["foreign"] = foreign(self.name, f, self.fns) + m["renamed"]
            self.lines = open(rs).read().split("\n")
            vc = ["verus", rs, "--output-json", "--time-expanded", "--error-format=json", "--multiple-errors", "8", "--rlimit", RLIMIT] + self.vargs
            self.cmd = " ".join(vc)
            rc, o, e, _ = sh(vc, timeout=600, cwd=BUILD)
            diags = []
            for l in e.split("\n"):
                if l.startswith("{"):
                    try:
                        diags.append(json.loads(l))
                    except ValueError:
                        pass
            try:
                res = json.loads(o)
                vr = res["verification-results"]
            except (ValueError, KeyError):
                res, vr = None, {"encountered-error": True, "encountered-vir-error": True}
            errs = [d for d in diags if d.get("level") == "error" and d.get("spans")]
            front = vr.get("encountered-error") and not vr.get("verified") and not vr.get("errors")
            if vr.get("encountered-vir-error") or res is None or "verified" not in vr or front:
                new = False
                for d in errs:
                    for (a, b, prim, lab, fname) in sorted(spans(d), key=lambda s: not s[2]):
                        f = self.fn_at(a) if fname.endswith(".rs") else None
                        if f and not f["assumed"] and f["key"] not in self.stubs:
                            self.stubs[f["key"]] = "outside the verifier's subset: " + d["message"].split("\n")[0]
                            new = True
                            break
                if new:
                    continue
                self.undecided = "the verifier cannot process the extracted unit: " + (
                    "; ".join(d["message"].split("\n")[0] for d in errs[:5]) or e.strip()[-1500:])
                break
            self.verified = vr["verified"]
            self.smt_ms = res["times-ms"]["smt"]["smt-run"]
            for mod in res["times-ms"]["smt"]["smt-run-module-times"]:
                for fb in mod.get("function-breakdown", []):
                    p = fb["function"].split("::", 1)[1]
                    b = self.breakdown.setdefault(p, {"queries": 0, "us": 0, "ok": True, "mode": fb.get("mode:")})
                    b["queries"] += 1
                    b["us"] += fb["time-micros"]
                    b["ok"] &= fb["success"]
            self.errors = self.parse(errs)
            break
        self.wall = time.time() - t0
        return self

    def parse(self, errs):
        out = []
        for d in errs:
            msg = d["message"].split("\n")[0]
            ss = spans(d)
            prim = [s for s in ss if s[2]] or ss
            f = None
            for s in sorted(ss, key=lambda s: (not s[2],)):
                f = self.fn_at(s[0])
                if f:
                    break
            tags = set()
            for s in ss:
                if s[4].endswith(os.path.basename(self.rs)):
                    for ln in range(s[0], s[1] + 1):
                        if ln - 1 < len(self.lines):
                            tags |= set(re.findall(r"//#(C\d\d(?:[ ,]C\d\d)*)", self.lines[ln - 1]))
            tags = set(re.findall(r"C\d\d", " ".join(tags)))
            low = msg.lower()
            genuine = "rlimit" not in low and "resource limit" not in low and "timed out" not in low and any(g in low for g in GENUINE)
            out.append({
                "fn": f, "msg": msg, "tags": tags, "genuine": genuine,
                "line": prim[0][0] if prim else 0,
                "text": self.lines[prim[0][0] - 1].strip() if prim and prim[0][0] - 1 < len(self.lines) else "",
                "clauses": [self.lines[s[0] - 1].strip() for s in ss if s[4].endswith(os.path.basename(self.rs)) and s[0] - 1 < len(self.lines)],
                "rendered": d.get("rendered", ""),
            })
        return out

    def again(self, seed, rlimit, mods=()):
        """The same text with another random seed of the solver: what it proves is proved."""
        vc = ["verus", self.rs, "--output-json", "--time-expanded", "--error-format=json", "--multiple-errors", "8", "--rlimit", str(rlimit),
              "--smt-option", f"smt.random_seed={seed}", "--smt-option", f"sat.random_seed={seed}"]
        for m in mods:
            vc += ["--verify-module", m]
        rc, o, e, _ = sh(vc, timeout=300, cwd=BUILD)
        diags = []
        for l in e.split("\n"):
            if l.startswith("{"):
                try:
                    diags.append(json.loads(l))
                except ValueError:
                    pass
        try:
            res = json.loads(o)
            res["verification-results"]["verified"]
        except (ValueError, KeyError):
            return None
        ok = {}
        for mod in res["times-ms"]["smt"]["smt-run-module-times"]:
            for fb in mod.get("function-breakdown", []):
                p = fb["function"].split("::", 1)[1]
                ok[p] = ok.get(p, True) and fb["success"]
        return self.parse([d for d in diags if d.get("level") == "error" and d.get("spans")]), ok

    def retry(self):
        """Another chance for what failed, before it is believed."""
        for seed in (7, 23):
            bad = [p for p, b in self.breakdown.items() if not b["ok"]]
            mods = sorted({p.split("::")[0] for p in bad} - {""})
            if not self.errors or not bad or self.vargs:
                return
            r = self.again(seed, 2 * int(RLIMIT), mods)
            if r is None:
                return
            errs, ok = r
            self.retries += 1
            won = [p for p in bad if ok.get(p)]
            for p in won:
                self.breakdown[p]["ok"] = True
            where = {(e["fn"]["key"] if e["fn"] else e["line"]) for e in errs}
            owners = {f["key"]: self.paths(f) for f in self.fns}
            self.errors = [e for e in self.errors if (e["fn"]["key"] if e["fn"] else e["line"]) in where
                           or (e["fn"] and not any(p in won for p in owners[e["fn"]["key"]]))]

    # --- which verification units belong to a property
    def module_of(self, line):
        for i in range(line - 1, -1, -1):
            m = re.match(r"pub mod (\w+) \{", self.lines[i])
            if m:
                return m.group(1)
        return ""

    def paths(self, f):
        """names under which the verifier reports function f"""
        mod = self.module_of(f["out_lines"][0])
        n = f.get("vname") or re.sub(r"^<.* for (.*)>::", r"\1::", f["name"])
        n = re.sub(r"<[^>]*>", "", n)
        want = (mod + "::" + n).split("::")
        r = [k for k in self.breakdown if k.split("::") == want]
        if not r:
            r = [k for k in self.breakdown if k.split("::")[0] == mod and k.split("::")[-1] == want[-1]
                 and (len(want) < 3 or want[-2] in k)]
        if not r and len(want) > 2:
            # a method of an impl block is reported under the module of its type
            r = [k for k in self.breakdown if k.split("::")[-2:] == want[-2:]]
            r = r if len(r) == 1 else []
        if not r and " for (" in f["name"]:
            # of a tuple type
            r = [k for k in self.breakdown if re.fullmatch(mod + r"::impl&%\d+::" + f["name"].rsplit("::", 1)[1], k)]
        return r

    def lemmas(self, prop):
        """proof functions tagged with the property"""
        r = []
        i = 0
        while i < len(self.lines):
            m = re.match(r"\s*pub (?:broadcast )?proof fn (\w+)", self.lines[i])
            if m and not any(f["out_lines"][0] <= i + 1 <= f["out_lines"][1] for f in self.fns):
                j, txt = i, ""
                while j < len(self.lines):
                    txt += self.lines[j] + "\n"
                    if self.lines[j].rstrip().endswith("}") or self.lines[j].strip() == "{":
                        break
                    j += 1
                tags = re.findall(r"//#(.*)", txt)
                if prop in re.findall(r"C\d\d", " ".join(tags)):
                    mod = self.module_of(i + 1)
                    r += [k for k in self.breakdown if k == f"{mod}::{m.group(1)}"]
                i = j
            i += 1
        return r


def trusted_of(u):
    """mechanical scan of the verified text for what it takes on trust"""
    t = []
    # contracts of std the verified text could use but does not are no assumption of this run
    lib, depth = set(), None
    for i, l in enumerate(u.lines):
        if re.match(r"(pub mod |// -----)", l):
            depth = re.match(r"pub mod (std_ops|strs) ", l)
        if depth:
            lib.add(i)
    used = set(re.findall(r"(?:\.|::|\b)(\w+)(?:::<[^>]*>)?\s*\(", "\n".join(l.split("//")[0] for i, l in enumerate(u.lines) if i not in lib)))
    for i, l in enumerate(u.lines):
        s = l.strip()
        if s.startswith("//"):
            continue
        if i in lib:
            m = re.search(r"assume_specification.*?(\w+)\s*\]\s*\(|external_body\].*\bfn (\w+)", s)
            if m and not (m.group(1) or m.group(2)) in used:
                continue
        if "assume_specification" in s:
            m = re.search(r"assume_specification\s*(?:<[^\[]*>)?\s*\[\s*(.*?)\s*\]\s*\(", s)
            t.append("assumed contract of the dependency function " + (m.group(1) if m else s))
        elif "external_body" in s:
            for j in range(i, min(i + 8, len(u.lines))):
                m = re.search(r"\b(fn|struct|enum)\s+(\w+)", u.lines[j])
                if m:
                    f = u.fn_at(j + 1)
                    if not f and m.group(1) == "fn":
                        of = ""
                        if u.lines[j].startswith(" "):
                            for k in range(j, -1, -1):
                                h = re.match(r"(?:pub )?(?:impl|trait)\b(?:<[^{]*?> | )(.*?)\s*\{", u.lines[k])
                                if h:
                                    of = " of " + re.sub(r".* for ", "", h.group(1))
                                    break
                        t.append("trusted contract (external_body) of the prelude function " + m.group(2) + of)
                    elif not f:
                        t.append("opaque external type " + m.group(2))
                    break
        elif re.search(r"\bassume\s*\(|\badmit\s*\(", s):
            t.append("assume/admit: " + s)
        elif re.match(r"(pub )?(broadcast )?(axiom|.*\baxiom fn)", s):
            t.append("axiom: " + s)
    return sorted(set(t))


# ---------------------------------------------------------------- replay

# dependencies whose source is verified against the contracts the units assume for it
DEPS = {"nomsrc": ("nom_src", ("C09", "C10", "C11", "C12", "C13", "C14", "C16", "C20"))}


class Dependency(threading.Thread):
    """Never alarms: the source of a dependency is not /repo's code. It only turns assumed contracts
    into proved ones, and says so in the evidence."""

    def __init__(self, name, vx):
        super().__init__()
        self.u = Unit(name, vx, [], ["--verify-module", DEPS[name][0]])

    def run(self):
        try:
            self.u.run()
        except Exception as e:  # noqa: BLE001
            self.u.undecided = repr(e)

    def report(self):
        u = self.u
        if u.undecided:
            return {"unit": u.name, "status": "not verified in this run, its contracts stay assumed: " + u.undecided[:500]}
        rows, ok = [], 0
        for f in u.fns:
            if f["assumed"]:
                continue
            ps = u.paths(f)
            if not ps:
                # renamed by the unit, or a method of an impl for a type without a name
                m = next(filter(None, (re.search(r"(?<!spec )\bfn (\w+)", l) for l in u.lines[f["out_lines"][0] - 1:f["out_lines"][1]])), None)
                ps = [k for k in u.breakdown if m and re.fullmatch(DEPS[u.name][0] + r"::(impl&%\d+::)?" + m.group(1), k)]
                ps = ps if len(ps) == 1 else []
            q = sum(u.breakdown[p]["queries"] for p in ps)
            good = q > 0 and f["key"] not in u.stubs and not any(e["fn"] is f for e in u.errors) and all(u.breakdown[p]["ok"] for p in ps)
            ok += good
            rows.append({"function": f["key"], "queries": q, "status": "proved" if good else "not proved, its contract stays assumed"})
        return {"unit": u.name, "functions_under_contract": len(rows), "functions_proved": ok, "solver_ms": u.smt_ms,
                "checker_cmd": u.cmd, "functions": rows, "trusted": trusted_of(u)}


def last_json(out):
    for l in reversed(out.split("\n")):
        if l.startswith("{\"violation\""):
            try:
                return json.loads(l)
            except ValueError:
                pass
    return None


class Search(threading.Thread):
    def died(self, exe, prop, seed, ms, threads, out):
        """The same search again, every case written down before it runs; then those that were
        running when it ended, each alone. Killed by a signal there, it is that case's doing."""
        sh([exe, "check", prop, "--seed", str(seed), "--ms", str(ms), "--threads", str(threads), "--out", out, "--record"], timeout=ms / 1000 + 200)
        for t in range(threads):
            f = f"{out}.{t}"
            if os.path.exists(f):
                rc, o, e, _ = sh([exe, "run", f], timeout=60)
                if rc in (-4, -6, -7, -8, -11) and self.r is None:
                    text = open(f).read()
                    with open(out, "w") as fh:
                        fh.write(text.replace("message=", f"message=the process is killed by signal {-rc} (stack overflow or abort)"))
                    self.r = {"violation": True, "message": f"the process is killed by signal {-rc} (stack overflow or abort)",
                              "evaluations": 1, "nontrivial": 1, "distinct": 1, "exhausted": False, "rule": "", "samples": [], "wall_ms": 0}
                os.remove(f)
        return self.r is not None

    def __init__(self, prop, seed, ms, threads, out):
        super().__init__()
        self.a = (prop, seed, ms, threads, out)
        self.r = None
        self.err = None

    def run(self):
        prop, seed, ms, threads, out = self.a
        exe, err = build_replay()
        if not exe:
            self.err = "the replay program does not build against /repo: " + err[-1500:]
            return
        cmd = [exe, "check", prop, "--seed", str(seed), "--ms", str(ms), "--threads", str(threads), "--out", out]
        rc, o, e, _ = sh(cmd, timeout=ms / 1000 + 200)
        self.r = last_json(o)
        if self.r is None:
            # an abort (stack overflow, out of memory) of the code under test: find the case
            if rc < 0 and self.died(exe, prop, seed, ms, threads, out):
                return
            self.err = f"the replay program ended with code {rc} without a result: {e[-500:]}"


def main():
    if sys.argv[1] == "--inventory":
        # written when contracts are written, never by a check
        vx = build_vx()
        inv = {}
        for u in UNITS:
            mp = os.path.join(BUILD, u + ".inv")
            os.makedirs(BUILD, exist_ok=True)
            rc, o, e, _ = sh([vx, os.path.join(V, "contracts", u + ".vc"), "--repo", REPO, "--out", os.path.join(BUILD, u + ".inv.rs"), "--map", mp])
            if rc:
                die(e)
            m = json.load(open(mp))
            inv[u] = {f["key"]: {k: f[k] for k in ("names", "closures", "cwhere", "binds", "cbinds", "uses") if k != "uses" or any(f[k].values())} for f in m["functions"] if not f["key"].startswith("cargo:")}
            inv[u]["__files__"] = m["files"]
            crate = m["crate"]
        with open(INVENTORY, "w") as o:
            o.write("{" + ",".join(f"\n{json.dumps(u)}: {{" + ",".join(f"\n {json.dumps(k)}: {json.dumps(v, sort_keys=True)}" for k, v in sorted(fs.items())) + "}"
                                  for u, fs in sorted(inv.items()) + [("__crate__", crate)]) + "\n}\n")
        rp, e = build_replay()
        with open(os.path.join(V, "replay/literals.txt"), "w") as o:
            o.write(sh([rp, "literals"])[1])
        return 0
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    os.makedirs(BUILD, exist_ok=True)
    rdir = os.path.join(EVID, "replay")
    os.makedirs(rdir, exist_ok=True)
    rfile = os.path.join(rdir, f"{prop}.txt")
    for f in (rfile, os.path.join(EVID, prop + ".json")):
        if os.path.exists(f):
            os.remove(f)
    quick = tier == "quick"
    ncpu = os.cpu_count() or 4
    s1 = Search(prop, seed, 12_000 if quick else 240_000, max(2, ncpu - 2), rfile)
    s1.start()
    vx = build_vx()
    deps = [Dependency(n, vx) for n, (_, ps) in DEPS.items() if prop in ps]
    for d in deps:
        d.start()
    units = [Unit(u, vx).run() for u, ps in UNITS.items() if prop in ps and os.path.exists(os.path.join(V, "contracts", u + ".vc"))]
    canary = []
    for u in units:
        if not u.undecided:
            c = Unit(u.name, vx, ["--canary"])
            c.stubs = dict(u.stubs)
            canary.append((u, c.run()))

    # an obligation that fails is tried again with other seeds, unless there is an input that shows the violation
    if any(u.errors for u in units):
        if quick:
            s1.join()
        if not (s1.r and s1.r.get("violation")):
            for u in units:
                u.retry()
    stable = {}
    if not quick:
        for u in units:
            if not u.undecided and not u.errors:
                for k in (5, 17, 91):
                    r = u.again(k, RLIMIT)
                    stable[f"{u.name}, seed {k}"] = "no answer" if r is None else "all proved" if not r[0] else "not proved: " + ", ".join(
                        sorted({(e["fn"] or {}).get("key", e["text"]) for e in r[0]}))

    # --- the verifier's answer for this property
    proved, failed, undecided, fn_rows = [], [], [], []
    obligations = discharged = 0
    solver_us = 0
    trusted, vac = [], []
    contracts = 0
    for u in units:
        if u.undecided:
            undecided.append({"unit": u.name, "why": u.undecided})
            continue
        mine = [f for f in u.fns if prop in f["props"] and not f["assumed"]]
        for k in u.notes:
            undecided.append({"unit": u.name, "why": "not known to the contracts: " + k})
        for k in u.lost:
            undecided.append({"unit": u.name, "why": f"anchor lost: {k}"})
        for f in mine:
            row = {"function": f["key"], "source_lines": f["src_lines"]}
            errs = [e for e in u.errors if e["fn"] is f and (not e["tags"] or prop in e["tags"])]
            ps = u.paths(f)
            q = sum(u.breakdown[p]["queries"] for p in ps)
            us = sum(u.breakdown[p]["us"] for p in ps)
            row.update(queries=q, solver_ms=round(us / 1000, 1))
            solver_us += us
            contracts += 1
            if f["key"] in u.stubs:
                row["status"] = "not proved: " + u.stubs[f["key"]]
                undecided.append({"function": f["key"], "why": u.stubs[f["key"]]})
                obligations += 1
            elif errs:
                intact = not f["lost"] and not f["changed_loops"] and not f["foreign"] and not f["imports"]
                bad = [e for e in errs if e["genuine"]]
                if prop in SAFETY:
                    bad = [e for e in bad if prop in e["tags"] or any(m in e["msg"].lower() for m in SAFETY_MSG)]
                obligations += max(q, 1)
                row["status"] = "FAILED: " + errs[0]["msg"]
                if bad and intact:
                    failed.append((u, f, bad))
                else:
                    why = errs[0]["msg"] + ("" if intact else " (contract anchors lost: %s)" % (f["lost"] + [str(c) for c in f["changed_loops"]] + ["not in the contract: " + n for n in f["foreign"] + f["imports"]]))
                    undecided.append({"function": f["key"], "why": why})
            elif f["imports"]:
                row["status"] = "not proved: names with another meaning: " + ", ".join(f["imports"])
                undecided.append({"function": f["key"], "why": row["status"]})
                obligations += max(q, 1)
            elif f["lost"]:
                row["status"] = "not proved: anchors lost: " + ", ".join(map(str, f["lost"]))
                undecided.append({"function": f["key"], "why": row["status"]})
                obligations += max(q, 1)
            elif not q:
                # nothing was sent to the solver for it: only possible for trivial bodies
                row["status"] = "no obligation generated"
                undecided.append({"function": f["key"], "why": "no obligation generated"})
                obligations += 1
            else:
                row["status"] = "proved"
                obligations += q
                discharged += q
                proved.append(f["key"])
            fn_rows.append(row)
        for k in u.lemmas(prop):
            b = u.breakdown[k]
            obligations += b["queries"]
            solver_us += b["us"]
            ok = b["ok"]
            if ok:
                discharged += b["queries"]
            else:
                undecided.append({"function": "lemma " + k, "why": "lemma not proved"})
            fn_rows.append({"function": "lemma " + k, "queries": b["queries"], "solver_ms": round(b["us"] / 1000, 1), "status": "proved" if ok else "FAILED"})
        # lemmas and other text outside of functions that fail
        for e in u.errors:
            if e["fn"] is None and (not e["tags"] or prop in e["tags"]):
                undecided.append({"unit": u.name, "why": e["msg"] + ": " + e["text"]})
        trusted += trusted_of(u)
    # vacuity: with `assert(false)` put at the start of every function, all of them must fail
    covered = 0
    for u, c in canary:
        if c.undecided:
            vac.append(f"unit {u.name}: canary run not possible: {c.undecided[:300]}")
            continue
        hit = {e["fn"]["key"] for e in c.errors if e["fn"]}
        for f in u.fns:
            if prop in f["props"] and not f["assumed"] and f["key"] not in u.stubs:
                if f["key"] in hit:
                    covered += 1
                else:
                    vac.append("precondition of %s looks unsatisfiable (assert(false) was accepted)" % f["key"])
    for v in vac:
        undecided.append({"why": v})

    for d in deps:
        d.join()
    s1.join()
    res, serr = s1.r, s1.err
    deep = None
    if not (res and res.get("violation")) and (failed or undecided or serr):
        # look longer for an input that fails on the real code
        used = time.time() - t0
        ms = int(min(120, max(20, 600 - used)) * 1000) if quick else 240_000
        s2 = Search(prop, seed + 1000, ms, ncpu, rfile)
        s2.run()
        deep = s2.r
        if s2.r and (s2.r.get("violation") or not res):
            res, serr = s2.r, None
        elif s2.err and not res:
            serr = s2.err

    violation = None
    if res and res.get("violation"):
        violation = f"VIOLATION property={prop} replay={os.path.relpath(rfile, V)}"
        with open(rfile, "a") as fh:
            fh.write(f"replay_cmd=replay/target/debug/replay run {os.path.relpath(rfile, V)}\n")
            for u, f, bad in failed:
                for e in bad:
                    fh.write(f"failed_obligation={f['key']}: {e['msg']}: {' / '.join(e['clauses'])}\n")
            for x in undecided:
                fh.write("undecided=" + json.dumps(x)[:600] + "\n")
    elif failed:
        violation = f"VIOLATION property={prop} replay={os.path.relpath(rfile, V)} no-failing-input-found"
        with open(rfile, "w") as fh:
            fh.write(f"property={prop}\nno failing input found\n")
            for u, f, bad in failed:
                fh.write(f"\nfailed obligation in {f['key']} (/repo/{f['file']}:{f['src_lines'][0]}-{f['src_lines'][1]})\n")
                for e in bad:
                    fh.write(f"  {e['msg']}: {' / '.join(e['clauses'])}\n\n{e['rendered']}\n")
                fh.write(f"verifier: {u.cmd}\n")

    cov = {
        "obligations": obligations,
        "discharged": discharged,
        "checker_cmd": units[0].cmd if units else "none",
        "back_end": "Verus 0.2026.09.13 (Z3)",
        "solver_ms": round(solver_us / 1000, 1),
        "functions_under_contract": contracts,
        "functions_proved": len(proved),
        "functions": fn_rows,
        "undecided": undecided,
        "verified_units_in_whole_file": {u.name: u.verified for u in units},
        "vacuity_guard": {"functions_with_reachable_body": covered, "problems": vac},
        "extraction_rewrites": {f["key"]: f["rewrites"] for u in units for f in u.fns if prop in f["props"] and f["rewrites"]},
        "trusted_base": sorted(set(trusted)) + ["vx extraction (what it drops and rewrites is listed in DESIGN.md)", "Verus, vstd, Z3, rustc"],
    }
    if any(u.retries for u in units):
        cov["proof_attempts_with_other_seeds"] = {u.name: u.retries for u in units if u.retries}
    if stable:
        cov["proof_stability"] = stable
    if deps:
        cov["dependency_source"] = [d.report() for d in deps]
    if res:
        cov.update({
            "evaluations": res.get("evaluations", 0),
            "distinct_nontrivial": res.get("distinct", 0),
            "rule": "bounded cross-check on the real code, not counted as proved: " + res.get("rule", ""),
            "samples": res.get("samples", []),
        })
    if deep:
        cov["deep_search_evaluations"] = deep.get("evaluations", 0)
    if serr:
        cov["replay_error"] = serr
    ev = {
        "property": prop, "tier": tier, "seed": seed,
        "level": "proof" if obligations else "exploration",
        "coverage": cov,
        "assumptions": sorted(set(trusted)) + [
            "functions listed under `undecided` are only covered by the bounded cross-check in this run"] * bool(undecided),
        "wall_s": round(time.time() - t0, 1),
        "violations": 1 if violation else 0,
    }
    with open(os.path.join(EVID, prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    for u in undecided:
        print("undecided:", json.dumps(u)[:500])
    print(f"{prop}: {discharged}/{obligations} obligations discharged, {len(proved)}/{contracts} functions proved, "
          f"{cov.get('evaluations', 0)} cases on the real code, {ev['wall_s']} s")
    if violation:
        print(violation)
        sys.exit(1)
    if serr and not res:
        if not proved:
            die("no answer: " + serr)
        if "without a result" in serr:
            # the real code aborted (stack overflow, memory): name it
            with open(rfile, "w") as fh:
                fh.write(f"property={prop}\n{serr}\n")
            print(f"VIOLATION property={prop} replay={os.path.relpath(rfile, V)} no-failing-input-found")
            sys.exit(1)
        # the verifier's answer stands without the cross-check
        print("no cross-check on the real code: " + serr[:300])
    sys.exit(0)


if __name__ == "__main__":
    main()
