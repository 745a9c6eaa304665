#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]

Deductive part: the contracts of the property on the functions extracted from /repo's current source (proof.py).
Replay part: the same contracts, executable, run against the real code; finds the failing input, and stands in
(bounded) for what the verifier does not reach.  Outcome policy: DESIGN.md.
"""
import json, os, re, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(HERE, ".build")
ENV = "/opt/vp/env.sh"
sys.path.insert(0, HERE)
import proof

QUICK_SECS, THOROUGH_SECS, PROCS = 16, 150, 7
# properties whose replay needs more than the default
SECS = {"C23": 1.5, "C19": 1.5, "C26": 1.2}


def sh(cmd, **kw):
    return subprocess.run(["bash", "-c", f". {ENV} >/dev/null 2>&1; {cmd}"], **kw)


class Replay:
    def __init__(self):
        self.binary = None
        self.note = ""

    def build(self):
        target = os.path.join(BUILD, "replay")
        os.makedirs(target, exist_ok=True)
        for feat in ("", "--no-default-features"):
            r = sh(
                f'cd {HERE}/replay && RUSTFLAGS="--cfg rudis_verif -Awarnings" CARGO_TARGET_DIR={target} '
                f"cargo build --offline {feat}",
                stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode == 0:
                self.binary = os.path.join(target, "debug", "replay")
                if feat:
                    self.note = "built without access to the physical key space (its fields changed)"
                return
            self.note = "the replay harness does not build against this tree: " + r.stdout[-600:]

    def run(self, prop, seed, secs, outdir):
        """[(violation text or None, report dict or None)]"""
        procs = []
        for i in range(PROCS):
            s = seed * 1000 + i
            out, jr, err = (os.path.join(outdir, f"{prop}.{i}.{e}") for e in ("json", "journal", "err"))
            for f in (out, jr):
                if os.path.exists(f):
                    os.remove(f)
            p = subprocess.Popen(
                ["bash", "-c", f". {ENV} >/dev/null 2>&1; exec timeout -k 5 {int(secs * 2 + 100)} {self.binary} run {prop} "
                 f"--seed {s} --secs {secs} --out {out} --journal {jr} >/dev/null 2>{err}"],
                cwd=outdir)
            procs.append((p, s, out, jr, err))
        res = []
        for p, s, out, jr, err in procs:
            rc = p.wait()
            rep = None
            if os.path.exists(out):
                try:
                    rep = json.load(open(out))
                except ValueError:
                    rep = None
            if rep is not None and rc in (0, 1):
                res.append((rep["violation"], rep))
            elif rc in (124, 137):
                res.append((None, {"hang": True, "seed": s}))
            else:
                tail = lambda f: open(f, errors="replace").read()[-3000:] if os.path.exists(f) else ""
                j = tail(jr)
                if j:
                    res.append((f"the process serving these requests died (status {rc})\n\n{tail(err)}\n\nrequests:\n{j}", None))
                else:
                    res.append((None, {"died": rc, "stderr": tail(err), "seed": s}))
        return res


def main():
    args = sys.argv[1:]
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    tier = "thorough" if tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    outdir = os.path.join(BUILD, "out", prop)
    os.makedirs(outdir, exist_ok=True)
    replay_file = os.path.join(outdir, "replay.txt")
    if os.path.exists(replay_file):
        os.remove(replay_file)

    rp = Replay()
    pr = proof.Proof(prop, tier, REPO, BUILD, HERE)
    tb = threading.Thread(target=rp.build)
    tp = threading.Thread(target=pr.run)
    tb.start()
    tp.start()
    tb.join()
    tp.join()
    reports, violation = [], None
    if rp.binary:
        secs = (THOROUGH_SECS if tier == "thorough" else QUICK_SECS) * SECS.get(prop, 1)
        rs = rp.run(prop, seed, secs, outdir)
        reports = [r for _, r in rs if r]
        violation = next((v for v, _ in rs if v), None)
    if pr.failed() and not violation and rp.binary:
        # an obligation fails: search longer for an input on which the real code shows it
        rs = rp.run(prop, seed + 7777, 400 if tier == "thorough" else 60, outdir)
        reports += [r for _, r in rs if r]
        violation = next((v for v, _ in rs if v), None)
    good = [r for r in reports if "evaluations" in r]

    known = known_findings(prop)
    lines, code = [], 0
    failed = pr.failed()
    if violation:
        with open(replay_file, "w") as f:
            f.write(violation)
            if failed:
                f.write("\n\nfailed obligations:\n" + "\n".join(failed))
        hit = next((k for k in known if k["match"] in violation), None)
        if hit:
            lines.append(f"KNOWN-FINDING: property={prop} {hit['what']}")
        else:
            lines.append(f"VIOLATION property={prop} replay={replay_file}")
            code = 1
    elif failed:
        with open(replay_file, "w") as f:
            f.write(f"property {prop}: obligations the verifier does not discharge on this tree\n\n")
            f.write("\n\n".join(failed))
            f.write("\n\nverifier output:\n" + pr.output()[-20000:])
        lines.append(f"VIOLATION property={prop} replay={replay_file} no-failing-input-found")
        code = 1

    ev = evidence(prop, tier, seed, pr, rp, good, reports, code, time.time() - t0)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print(pr.summary())
    n = sum(r["evaluations"] for r in good)
    print(f"replay: {n} requests or cases in {len(good)} processes; {rp.note}".rstrip("; "))
    for r in reports:
        if "evaluations" not in r:
            print("replay process without result:", json.dumps(r)[:600])
    if violation:
        print(violation[:4000])
    for f in failed:
        print("FAILED OBLIGATION", f[:1500])
    for l in lines:
        print(l)
    sys.exit(code)


def known_findings(prop):
    """lines `finding: property=<id> match=<text of the failure, JSON string> what=<...>`; `fixed:` lines suppress nothing"""
    res = []
    p = os.path.join(HERE, "known_findings")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) match=("(?:[^"\\]|\\.)*") what=(.*)', l)
            if m and m.group(1) == prop:
                res.append({"match": json.loads(m.group(2)), "what": m.group(3)})
    return res


def evidence(prop, tier, seed, pr, rp, good, reports, code, wall):
    rep = {
        "requests_or_cases": sum(r["evaluations"] for r in good),
        "distinct_histories": sum(r["distinct"] for r in good),
        "what": good[0]["note"] if good else rp.note,
        "role": "search for a failing input and bounded stand-in; not counted as proved",
    }
    p = pr.evidence()
    level = "proof" if p and p.pop("complete") else "other"
    cov = {}
    if p:
        cov.update(p)
        cov["replay"] = rep
    if level == "other":
        cov["explanation"] = (
            (pr.undecided_text() + " " if p else pr.no_unit_text() + " ")
            + "Decided by the executable contracts run against the real code (bounded): "
            + f"{rep['requests_or_cases']} requests or cases, {rep['distinct_histories']} distinct histories "
            + f"in {len(good)} processes ({rep['what']}).")
        cov["evaluations"] = rep["requests_or_cases"]
        cov["distinct_nontrivial"] = rep["distinct_histories"]
        cov["samples"] = [s for r in good[:2] for s in r["samples"][:2]]
    return {
        "property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
        "assumptions": pr.assumptions(), "wall_s": round(wall, 1), "violations": 1 if code else 0,
    }


if __name__ == "__main__":
    main()
