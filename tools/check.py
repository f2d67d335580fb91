#!/usr/bin/env python3
"""Decides one property of /repo.
  check PROP [quick|thorough]           run the check (VERIF_SEED, VERIF_TIER are used as defaults)
  check replay PROP SEED TIER INDEX     run one case of the replay engine again
  check setup                           build everything once
Exit 0: held; 1: VIOLATION printed; 2: error of the check itself."""
import json, os, subprocess, sys, threading, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")
REPO = "/repo"
sys.path.insert(0, os.path.join(VERIF, "tools"))
import props  # noqa: E402


def sh(cmd, timeout, cwd=None, env=None):
    """Runs cmd, returns (rc, stdout, stderr, seconds); rc None on timeout."""
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    if env:
        e.update(env)
    t = time.time()
    try:
        p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                             start_new_session=True)
        out, err = p.communicate(timeout=timeout)
        return p.returncode, out, err, time.time() - t
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        out, err = p.communicate()
        return None, out, err, time.time() - t


class Replay:
    """The bounded executable side: runs the real code against the executable specification."""
    def __init__(self):
        self.exe = None
        self.note = ""

    def build(self):
        tgt = os.path.join(BUILD, "replay")
        for feats in (["--features", "full,private"], ["--features", "full"]):
            rc, out, err, _ = sh(["cargo", "build", "--offline", "--no-default-features", *feats], 600,
                                 cwd=os.path.join(VERIF, "replay"), env={"CARGO_TARGET_DIR": tgt})
            if rc == 0:
                self.exe = os.path.join(tgt, "debug", "zvreplay")
                self.note = " ".join(feats)
                return True
            self.err = err[-3000:]
        return False

    def run(self, prop, tier, seed, budget, out):
        if os.path.exists(out):
            os.remove(out)
        rc, o, e, dt = sh([self.exe, prop, "--tier", tier, "--seed", str(seed), "--budget", str(budget), "--out", out],
                          budget + 200, cwd=VERIF)
        stats = None
        for line in o.splitlines():
            if line.startswith("STATS "):
                stats = json.loads(line[6:])
        return rc, o, e, stats


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    os.makedirs(BUILD, exist_ok=True)
    if a[0] == "setup":
        r = Replay()
        ok = r.build()
        if not ok:
            print(r.err)
        import deductive
        deductive.setup()
        return 0
    if a[0] == "replay":
        r = Replay()
        if not r.build():
            print(r.err)
            return 2
        return subprocess.call([r.exe, a[1], "--seed", a[2], "--tier", a[3], "--only", a[4]])
    prop = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    return check(prop, tier, seed)


def check(prop, tier, seed):
    t0 = time.time()
    P = props.PROPS[prop]
    outdir = os.path.join(BUILD, "out", prop)
    os.makedirs(outdir, exist_ok=True)
    ev_path = os.path.join(VERIF, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(ev_path), exist_ok=True)
    replay = Replay()
    res = {}

    def do_replay():
        if not replay.build():
            res["replay"] = ("nobuild", replay.err)
            return
        f = os.path.join(outdir, "failing_input.json")
        budget = P.budget[0] if tier == "quick" else P.budget[1]
        res["replay"] = ("ran",) + replay.run(prop, tier, seed, budget, f) + (f,)
        if res["replay"][1] == 1:
            import deductive
            deductive.INPUT_FOUND.set()
        res["trust"] = replay.run("TRUST", tier, seed, 10 if tier == "quick" else 120, os.path.join(outdir, "trust.json"))

    def do_proof():
        try:
            import deductive
            res["proof"] = deductive.run(prop, tier, seed, outdir)
        except Exception:
            res["proof"] = {"error": traceback.format_exc()}

    th = [threading.Thread(target=do_replay), threading.Thread(target=do_proof)]
    for t in th:
        t.start()
    for t in th:
        t.join()

    rp = res["replay"]
    proof = res["proof"]
    violation = None   # (replay path, suffix)
    stats = None
    problems = []
    if rp[0] == "nobuild":
        problems.append("the replay engine does not build against this tree: " + rp[1][-600:])
    else:
        _, rc, out, err, stats, f = rp
        if rc == 1 and os.path.exists(f):
            violation = (f, "")
        elif rc != 0:
            problems.append(f"replay engine ended with {rc}: {err[-500:]}")
    failed = proof.get("failed", [])      # definite failed obligations of this property
    undecided = proof.get("undecided", [])  # what could not be decided (lost anchors, unsupported, resource limits)
    if proof.get("error"):
        undecided = undecided + ["error: " + proof["error"][-800:]]
    if violation is None and failed:
        # deeper search for an input that shows it
        if replay.exe:
            f = os.path.join(outdir, "failing_input.json")
            for extra in range(1, 3):
                rc, out, err, st = replay.run(prop, "thorough" if extra == 2 else "quick", seed + 1000 * extra, 60, f)
                if rc == 1 and os.path.exists(f):
                    violation = (f, "")
                    break
        if violation is None:
            f = os.path.join(outdir, "failed_obligation.json")
            with open(f, "w") as h:
                json.dump({"property": prop, "kind": "failed-obligation", "obligations": failed,
                           "verifier_output": proof.get("output", "")[-20000:],
                           "checker": proof.get("checker_cmd", "")}, h, indent=1)
            violation = (f, " no-failing-input-found")

    level = P.level
    cov = {}
    if stats:
        cov.update({k: stats[k] for k in ("evaluations", "distinct_nontrivial", "rule", "samples")})
        cov["replay_groups"] = stats["groups"]
        cov["replay_wall_s"] = stats["wall_s"]
        cov["replay_role"] = ("bounded: search for a failing input on the real code, bounded stand-in for the functions "
                              "listed under bounded_functions; never counted as proved")
    if "trust" in res:
        rc, out, _, st = res["trust"]
        cov["trusted_contracts_tested"] = st["groups"] if st else []
        if rc != 0:
            cov["trusted_contracts_refuted"] = out[-1500:]
            print("NOTE a trusted contract of a dependency does not hold:", out[-300:].replace("\n", " "))
    cov.update(proof.get("coverage", {}))
    if undecided:
        cov["undecided"] = undecided
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": P.assumptions + proof.get("assumptions", []) + problems,
          "wall_s": round(time.time() - t0, 2), "violations": 1 if violation else 0}
    with open(ev_path, "w") as h:
        json.dump(ev, h, indent=1)
    for line in known_findings(prop):
        print(line)
    for u in undecided:
        print("NOTE undecided by proof, bounded check stands in:", u.splitlines()[-1] if u else u)
    if violation:
        print(f"VIOLATION property={prop} replay={violation[0]}{violation[1]}")
        return 1
    if problems and not (proof.get("coverage", {}).get("obligations") and not undecided):
        for p in problems:
            print("ERROR", p)
        return 2
    print(f"OK property={prop} tier={tier} obligations={cov.get('obligations')} discharged={cov.get('discharged')} "
          f"replay_cases={cov.get('evaluations')} wall={ev['wall_s']}s")
    return 0


def known_findings(prop):
    p = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for line in open(p):
            if line.startswith(f"finding: property={prop} "):
                out.append("KNOWN-FINDING: " + line[len("finding: "):].strip())
    return out


if __name__ == "__main__":
    sys.exit(main())
