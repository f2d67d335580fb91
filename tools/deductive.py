"""The deciding step: extracts the functions under contract from /repo/src and has Verus discharge every obligation."""
import json, os, re, subprocess, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")
SRC = "/repo/src"
OV = os.path.join(VERIF, "verus")
EXTRACT = os.path.join(BUILD, "extract", "debug", "zvextract")
RLIMIT = {"quick": "30", "thorough": "60"}

# which units carry obligations of which property
# (properties, modules whose obligations are discharged in the unit; the others are contracts verified in their own unit)
UNITS = {
    "u_reader": (["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C11", "C16"], []),
    "u_builder": (["C01", "C02", "C05", "C06", "C08", "C09", "C10"], ["builder", "structs"]),
    "u_bytes": (["C15"], ["bytes"]),
    "u_actix": (["C14"], ["web"]),
    "u_source": (["C12", "C13"], []),
    "u_fs": (["C13"], ["filesystem"]),
}
try:
    SHAPES = json.load(open(os.path.join(OV, "shapes.json")))
except OSError:
    SHAPES = {}
UNIT_PROPS = lambda p: [u for u, ps in UNITS.items() if p in ps[0]]

KIND = re.compile(r"postcondition|precondition|invariant|assert|overflow|underflow|decreases|division|bounds|cannot show|not satisfied|might not|recommend|trait")


# set when the replay engine has found a failing input
INPUT_FOUND = threading.Event()


def _sh(cmd, timeout, cwd=None):
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
        return p.returncode, out, err
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        out, err = p.communicate()
        return None, out, err


def build_extractor():
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "extract")
    p = subprocess.run(["cargo", "build", "--offline"], cwd=os.path.join(VERIF, "extract"), env=e, capture_output=True, text=True)
    if p.returncode != 0:
        raise RuntimeError("extractor does not build: " + p.stderr[-2000:])


def setup():
    build_extractor()


def module_at(lines, n):
    for i in range(n - 1, -1, -1):
        m = re.match(r"pub mod (\w+) \{", lines[i])
        if m:
            return m.group(1)
    return ""


def name_at(lines, n):
    for i in range(n - 1, min(n + 8, len(lines))):
        m = re.search(r"\bfn (\w+)", lines[i])
        if m:
            return m.group(1)
    return None


class Unit:
    def __init__(self, name, work, tier):
        self.name, self.work, self.tier = name, work, tier
        self.rs = os.path.join(work, name + ".rs")
        self.assume, self.lost, self.errors, self.fns = [], [], [], []
        self.broken = None      # why nothing of this unit was decided
        self.verified = self.nerr = 0
        self.solver_ms = 0
        self.output = ""
        self.per_fn = {}
        self.retries = []

    def extract(self, extra=()):
        args = [EXTRACT, os.path.join(OV, self.name + ".ov"), SRC, self.rs, self.rs[:-3] + ".json"]
        for a in self.assume:
            args += ["--assume", a]
        return _sh(args + list(extra), 120)

    def cmd(self):
        return ["verus", "--edition=2024", self.name + ".rs", "--output-json", "--time-expanded", "--error-format=json",
                "--rlimit", RLIMIT[self.tier], "--multiple-errors", "4", "-V", "spinoff-all",
                *[x for m in UNITS[self.name][1] for x in ("--verify-only-module", m)]]

    def run(self, budget):
        t0 = time.time()
        for _ in range(6):
            rc, out, err = self.extract()
            if rc == 3:
                msg = out.strip().splitlines()[-1]
                self.lost.append(msg)
                m = re.match(r"LOST fn (\S+|<[^>]*>::\S+): ", msg)
                m = re.match(r"LOST fn (.+?): ", msg)
                if m and m.group(1) not in self.assume:
                    self.assume.append(m.group(1))
                    continue
                self.broken = msg
                return
            if rc != 0:
                self.broken = "extractor failed: " + (err or out)[-800:]
                return
            self.fns = json.load(open(self.rs[:-3] + ".json"))
            left = budget - (time.time() - t0)
            rc, out, err = _sh(self.cmd(), max(left, 5), cwd=self.work)
            if rc is None:
                self.broken = "verifier time limit"
                return
            self.output = err
            diags = []
            for line in err.splitlines():
                try:
                    d = json.loads(line)
                except ValueError:
                    continue
                if d.get("level") == "error" and d.get("spans"):
                    diags.append(d)
            try:
                js = json.loads(out)
            except ValueError:
                js = {}
            vr = js.get("verification-results", {})
            if "verified" not in vr or vr.get("encountered-vir-error") or not js.get("times-ms", {}).get("smt") or \
                    (vr.get("errors", 0) == 0 and vr.get("encountered-error")):
                # not accepted by the front end: set aside the functions it complains about
                hit = []
                for d in diags:
                    for s in d["spans"]:
                        for f in self.fns:
                            if f["out_from"] <= s["line_start"] <= f["out_to"] and f["mode"] == "verify" and f["fn"] not in hit:
                                hit.append(f["fn"])
                text = "; ".join(d["message"] for d in diags[:3]) or err[-300:]
                self.lost.append("not accepted by the verifier's front end: " + text)
                hit = [h for h in hit if h not in self.assume]
                if not hit:
                    self.broken = self.lost[-1]
                    return
                self.assume += hit
                continue
            self.verified, self.nerr = vr["verified"], vr["errors"]
            self.solver_ms = js["times-ms"]["smt"].get("total", 0)
            for mod in js["times-ms"]["smt"].get("smt-run-module-times", []):
                for f in mod.get("function-breakdown", []):
                    self.per_fn[f["function"]] = f["time"]
            lines = open(self.rs).read().splitlines()
            self.errors = [self.classify(d, lines) for d in diags]
            # what a closure without contract returns is not known to the verifier: a failure there decides nothing
            openc = {f["fn"] for f in self.fns if any(r.startswith("closures without contract") for r in f["rewrites"])}
            hit = sorted({e["function"] for e in self.errors if e["function"] in openc} - set(self.assume))
            if hit:
                self.lost.append("closures without contract in " + ", ".join(hit))
                self.assume += hit
                continue
            # the verifier loses track of borrowed state at guarded match arms that bind variables
            guarded = {f["fn"] for f in self.fns if any(r.startswith("guarded arms that bind") for r in f["rewrites"])}
            hit = sorted({e["function"] for e in self.errors if e["function"] in guarded} - set(self.assume))
            if hit:
                self.lost.append("guarded match arms that bind variables in " + ", ".join(hit))
                self.assume += hit
                continue
            # loop invariants are written for the loops of the function: other loops need others
            hit = sorted({e["function"] for e in self.errors if e["function"] in self.reshaped()} - set(self.assume))
            if hit:
                self.lost.append("loops without invariants of their own in " + ", ".join(hit))
                self.assume += hit
                continue
            # the same for the contracts of closures
            hit = sorted({e["function"] for e in self.errors if e["function"] in self.other_closures() and "closure" in e["kind"]} - set(self.assume))
            if hit:
                self.lost.append("closures without contracts of their own in " + ", ".join(hit))
                self.assume += hit
                continue
            self.retry(lines, t0 + budget)
            return
        self.broken = "too many functions outside of reach: " + "; ".join(self.lost)

    def reshaped(self):
        """Functions whose loops are of another kind than those their invariants were written for, or carry other variables."""
        out = set()
        for f in self.fns:
            now = [r[7:] for r in f["rewrites"] if r.startswith("loops: ")]
            was = SHAPES.get(f["fn"])
            if not now or was is None:
                continue
            (k0, v0), (k1, v1) = (x.split(" with ") for x in (was, now[0]))
            if k0 != k1 or set(v1.split()) - set(v0.split()):
                out.add(f["fn"])
        return out

    def other_closures(self):
        """Functions with closures that are not those their contracts were written for."""
        out = set()
        for f in self.fns:
            now = [r[16:] for r in f["rewrites"] if r.startswith("closure bodies: ")]
            if now and now[0] != SHAPES.get("closures of " + f["fn"]):
                out.add(f["fn"])
        return out

    def retry(self, lines, deadline):
        """Functions the solver gave up on are decided again one by one with five times the resources and several seeds."""
        todo = {}
        if INPUT_FOUND.is_set():
            self.retries.append("not decided again: a failing input is known already")
            return
        for e in self.errors:
            if e["undecided"]:
                todo.setdefault((module_at(lines, e["line"]), name_at(lines, e["line"])), []).append(e)
        runs = []
        for (mod, name), es in list(todo.items())[:4]:
            if not name:
                continue
            for seed in (0, 2, 5):
                cmd = ["verus", "--edition=2024", self.name + ".rs", "--output-json", "--error-format=json", "--multiple-errors", "4",
                       "-V", "spinoff-all", "--rlimit", "150", "--smt-option", f"smt.random_seed={seed}",
                       "--verify-only-module", mod, "--verify-function", "*::" + name]
                runs.append(((mod, name), cmd, {}))
        sem = threading.Semaphore(6)

        def one(r):
            with sem:
                rc, out, err = _sh(r[1], max(deadline + 60 - time.time(), 5), cwd=self.work)
            r[2].update(rc=rc, out=out or "", err=err or "")
        ths = [threading.Thread(target=one, args=(r,)) for r in runs]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        for key, es in todo.items():
            ok, definite = False, []
            for k, _, r in runs:
                if k != key or r.get("rc") is None:
                    continue
                try:
                    vr = json.loads(r["out"]).get("verification-results", {})
                except ValueError:
                    continue
                diags = []
                for line in r["err"].splitlines():
                    try:
                        d = json.loads(line)
                    except ValueError:
                        continue
                    if d.get("level") == "error" and d.get("spans"):
                        diags.append(self.classify(d, lines))
                if vr.get("verified", 0) > 0 and vr.get("errors") == 0 and not diags:
                    ok = True
                for c in diags:
                    if not c["undecided"] and not any(c["kind"] == x["kind"] and c["clause"] == x["clause"] for x in definite):
                        definite.append(c)
            self.retries.append(f"{key[0]}::{key[1]}: " + ("discharged" if ok else "failed" if definite else "still not discharged"))
            if ok:
                self.errors = [e for e in self.errors if e not in es]
                self.verified += 1
                self.nerr -= 1
            elif definite:
                self.errors = [e for e in self.errors if e not in es] + definite
            else:
                for e in es:
                    e["kind"] += " (also with five times the limit and other seeds)"

    def fn_at(self, line):
        for f in self.fns:
            if f["out_from"] <= line <= f["out_to"]:
                return f
        return None

    def classify(self, d, lines):
        spans = d["spans"]
        prim = [s for s in spans if s["is_primary"]] or spans
        fn = None
        for s in spans:
            f = self.fn_at(s["line_start"])
            if f and f["mode"] == "verify" and (fn is None or not s.get("label") or "failed this" not in s["label"]):
                fn = f
        tags = []
        clause = ""
        for s in spans:
            if s["line_end"] - s["line_start"] > 40:
                continue
            found = []
            for n in range(s["line_start"], s["line_end"] + 1):
                if n <= len(lines) and "//" in lines[n - 1]:
                    found += re.findall(r"@(C\d\d)", lines[n - 1].split("//", 1)[1])
            if found or "failed" in (s.get("label") or ""):
                clause = " ".join(x["text"].strip() for x in s["text"])[:300]
            tags += found
        src = ""
        if not clause:
            clause = " ".join(x["text"].strip() for x in prim[0]["text"])[:300]
        return {"function": fn["fn"] if fn else "(lemma)", "source": f"/repo/src/{fn['file']}:{fn['src_line']}" if fn else "",
                "kind": d["message"], "clause": clause, "tags": sorted(set(tags)),
                "props": sorted(set(tags)) or (fn["props"].split() if fn else list(UNITS[self.name][0])),
                "undecided": bool(re.search(r"rlimit|Resource limit|timed? ?out|solver", d["message"], re.I)),
                "line": prim[0]["line_start"], "rendered": d.get("rendered", "")[:3000]}

    def vacuity(self, budget):
        """Every function under contract, started with assert(false), has to fail: its preconditions are not contradictory."""
        u = Unit(self.name, os.path.join(self.work, "vacuity"), self.tier)
        os.makedirs(u.work, exist_ok=True)
        u.assume = list(self.assume)
        rc, out, err = u.extract(["--vacuity"])
        if rc != 0:
            return None
        fns = json.load(open(u.rs[:-3] + ".json"))
        rc, out, err = _sh(u.cmd(), budget, cwd=u.work)
        if rc is None:
            return None
        hit = set()
        for line in err.splitlines():
            try:
                d = json.loads(line)
            except ValueError:
                continue
            if d.get("level") == "error":
                for s in d.get("spans", []):
                    for f in fns:
                        if f["out_from"] <= s["line_start"] <= f["out_to"]:
                            hit.add(f["fn"])
        return [f["fn"] for f in fns if f["mode"] == "verify" and f["fn"] not in hit]

    def trusted(self):
        """Everything in the generated file the verifier takes on trust."""
        out = []
        lines = open(self.rs).read().splitlines()
        contract = [f for f in self.fns if f["mode"] != "verify"]
        for i, l in enumerate(lines):
            s = l.strip()
            if any(f["out_from"] <= i + 1 <= f["out_to"] for f in contract):
                continue
            if "#[verifier::external_body]" in s or s.startswith("#[verifier::external_type_specification]"):
                j = i
                while j < len(lines) and not re.search(r"\b(fn|struct|enum)\s+\w+", lines[j]):
                    j += 1
                m = re.search(r"\b(fn|struct|enum)\s+(\w+)", lines[j]) if j < len(lines) else None
                if m:
                    out.append(f"external {m.group(1)} {m.group(2)}")
            m = re.search(r"assume_specification.*\[\s*([^\]]+?)\s*\]", s)
            if m:
                out.append("assumed contract of " + m.group(1))
            m = re.search(r"\baxiom fn (\w+)", s)
            if m:
                out.append("axiom " + m.group(1))
            if re.search(r"\b(assume|admit)\(", s.split("//")[0]):
                out.append("assume: " + s[:100])
        return sorted(set(out))


# harnesses about the derived layout code (second back end: Kani/CBMC, all field values, loops unrolled completely)
LAYOUT_HARNESSES = {"C01": None, "C02": ["layout_sizes"], "C09": ["layout_localfileheader", "layout_centraldirectoryheader"],
                    "C10": ["layout_centraldirectoryheader"]}


def run_layout(prop, outdir, budget):
    """The contract of pack_to_slice (verus/gen_layout.rs) against the code derived from /repo/src/structs.rs."""
    import layout
    if prop not in LAYOUT_HARNESSES:
        return None
    d = os.path.join(outdir, "layout")
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    dep = [l for l in open("/repo/Cargo.toml") if l.startswith("packed_struct")]
    with open(os.path.join(d, "Cargo.toml"), "w") as h:
        h.write('[package]\nname = "zvlayout"\nversion = "0.0.0"\nedition = "2024"\n[workspace]\n[dependencies]\n' + "".join(dep))
    if os.path.exists("/repo/Cargo.lock"):
        open(os.path.join(d, "Cargo.lock"), "w").write(open("/repo/Cargo.lock").read())
    open(os.path.join(d, "src", "lib.rs"), "w").write("#![allow(dead_code)]\nmod structs;\n")
    open(os.path.join(d, "src", "structs.rs"), "w").write(open(os.path.join(SRC, "structs.rs")).read() + layout.kani())
    hs = LAYOUT_HARNESSES[prop]
    cmd = ["cargo", "kani", "-j", "4", "--output-format", "terse", "--target-dir", os.path.join(d, "target")]
    cmd += [x for h in hs or [] for x in ("--harness", "structs::zv_layout::" + h)]
    t0 = time.time()
    rc, out, err = _sh(cmd, budget, cwd=d)
    r = {"cmd": " ".join(cmd), "wall_s": round(time.time() - t0, 1), "failed": [], "undecided": [], "output": (out or "")[-3000:]}
    m = re.search(r"Complete - (\d+) successfully verified harnesses, (\d+) failures, (\d+) total", out or "")
    want = len(hs) if hs else len(layout.DIRECT) + 1
    if rc is None or not m or int(m.group(3)) != want:
        r["undecided"].append("layout of structs.rs: " + ("time limit" if rc is None else "harnesses not run: " + ((err or "") + (out or ""))[-400:]))
        r["harnesses"] = 0
        return r
    r["harnesses"], r["verified"] = int(m.group(3)), int(m.group(1))
    r["checks"] = sum(int(x) for x in re.findall(r"\*\* \d+ of (\d+) failed", out))
    for f in re.findall(r"Verification failed for - (\S+)", out):
        r["failed"].append({"function": "derive(PackedStruct)", "source": "/repo/src/structs.rs",
                            "kind": "Kani harness failed: the packed bytes are not those of the zip specification", "clause": f})
    return r


def run(prop, tier, seed, outdir):
    units = UNIT_PROPS(prop)
    if not units:
        return {}
    build_extractor()
    budget = 240 if tier == "quick" else 600
    us = []
    for u in units:
        w = os.path.join(outdir, "verus")
        os.makedirs(w, exist_ok=True)
        us.append(Unit(u, w, tier))
    ths = [threading.Thread(target=u.run, args=(budget,)) for u in us]
    lay = {}

    def do_layout():
        lay["r"] = run_layout(prop, outdir, budget)
    ths.append(threading.Thread(target=do_layout))
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    failed, undecided, output = [], [], []
    under, assumed_fns, trusted, rewrites = [], [], set(), set()
    obligations = discharged = solver = 0
    other = []
    bounded = []
    vac = {}
    for u in us:
        if u.broken:
            undecided.append(f"{u.name}: {u.broken}")
            continue
        lines = open(u.rs).read().splitlines()
        for f in u.fns:
            text = "\n".join(lines[f["out_from"] - 1:f["out_to"]])
            mine = prop in f["props"].split() or re.search(r"//[^\n]*@" + prop, text)
            if f["mode"] == "verify":
                if mine:
                    under.append({"function": f["fn"], "file": f["file"], "line": f["src_line"]})
                    rewrites.update(r for r in f["rewrites"] if not r.startswith(("loops: ", "closure bodies: ")))
            elif f["fn"] in u.assume:
                bounded.append(f["fn"])
                (undecided if mine else other).append(
                    f"{u.name}: the changed body of {f['fn']} could not be brought within reach; its contract was assumed"
                    + " (" + "; ".join(u.lost)[:600] + ")")
            else:
                assumed_fns.append(f["fn"])
        for e in u.errors:
            if prop in e["props"]:
                if e["undecided"] and e["function"] == "(lemma)":
                    undecided.append(f"{u.name}: {e['function']}: {e['kind']}: {e['clause']}")
                else:
                    failed.append({k: e[k] for k in ("function", "source", "kind", "clause")})
                    output.append(e["rendered"])
            else:
                other.append(f"obligation of {e['function']} ({' '.join(e['props'])}) not discharged: {e['kind']}: {e['clause']}")
        obligations += u.verified + u.nerr
        discharged += u.verified
        solver += u.solver_ms
        trusted.update(u.trusted())
        if tier == "thorough":
            v = u.vacuity(budget)
            if v is None:
                vac[u.name] = "not run"
            elif v:
                undecided.append(f"{u.name}: contradictory preconditions (contract is vacuous): {v}")
                vac[u.name] = f"vacuous: {v}"
            else:
                vac[u.name] = "no function under contract is vacuous"
    lr = lay.get("r")
    if lr:
        failed += lr["failed"]
        undecided += lr["undecided"]
        if lr["failed"]:
            output.append(lr["output"])
        obligations += lr["harnesses"]
        discharged += lr.get("verified", 0)
    cmd = "; ".join("zvextract verus/%s.ov /repo/src OUT && %s" % (u.name, " ".join(u.cmd())) for u in us)
    cov = {
        "obligations": obligations, "discharged": discharged, "checker_cmd": cmd, "back_end": "Verus 0.2026.09.13 / Z3",
        "solver_ms": solver, "units": units, "functions_under_contract": under,
        "trusted_base": sorted(trusted), "contracts_assumed_here_verified_in_another_unit": sorted(set(assumed_fns)),
        "extraction_rewrites": sorted(rewrites), "bounded_functions": sorted(set(bounded)),
    }
    if lr:
        cov["layout_by_kani"] = {k: lr[k] for k in ("cmd", "harnesses", "verified", "checks", "wall_s") if k in lr}
        cov["back_end"] += "; layout of the derived structures: Kani 0.68 / CBMC"
        cmd += "; " + lr["cmd"]
        cov["checker_cmd"] = cmd
    if vac:
        cov["vacuity"] = vac
    rt = [f"{u.name}: {x}" for u in us for x in u.retries]
    if rt:
        cov["decided_again_with_more_resources"] = rt
    if other:
        cov["elsewhere_not_discharged"] = other
    return {"failed": failed, "undecided": undecided, "output": "\n".join(output), "checker_cmd": cmd, "coverage": cov,
            "assumptions": ["contracts of external code: see coverage.trusted_base"]}
