"""Deductive part of a check: extraction of the real source, Verus, vacuity guards.

A *unit* (contracts/<name>.unit) is a set of source files of /repo with contracts.  Every run extracts it again and
verifies all of it; what counts for a property is selected afterwards: a clause tagged `// @C17` in a contract belongs to
C17, an untagged clause, an invariant, or a panic-freedom obligation to the property of the function (props.OWN), panic
freedom to C03 as well.
"""
import json, os, re, subprocess, threading, time

import props

ENV = "/opt/vp/env.sh"
MAX_ROUNDS = 6


def sh(cmd, timeout=None):
    try:
        return subprocess.run(["bash", "-c", f". {ENV} >/dev/null 2>&1; {cmd}"], stdout=subprocess.PIPE,
                              stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired as e:
        return subprocess.CompletedProcess(cmd, 124, "", f"timeout after {timeout} s")


def own(path):
    """properties of an untagged clause of a function"""
    for pat, ps in props.OWN:
        if re.search(pat, path):
            return ps
    return []


class Fn:
    def __init__(self, d):
        self.__dict__.update(d)
        self.key = d["path"]
        self.errors = []      # (tags or None, text)
        self.undecided = []   # reasons
        self.clauses = []     # (line, tags or None, text)
        self.micros = 0
        self.canary = None
        self.auto_fails = False


class Unit:
    """one Verus run"""

    def __init__(self, name, repo, build, here, extractor, derive=None):
        self.name, self.repo, self.build, self.here, self.extractor = name, repo, build, here, extractor
        self.derive = derive
        self.dir = os.path.join(build, "proof", name)
        os.makedirs(self.dir, exist_ok=True)
        self.broken = None    # why nothing could be decided
        self.fns, self.missing, self.dropped, self.notes, self.trusted = {}, [], [], [], []
        self.log, self.smt_ms, self.wall, self.verified = "", 0, 0.0, 0
        self.forced, self.modules, self.auto = {}, [], set()

    def extract(self, out, canary=False):
        stubs = " ".join(f"--stub '{s}'" for s in self.forced)
        stubs += "".join(f" --auto '{s}'" for s in sorted(self.auto))
        r = sh(f"{self.extractor} {self.here}/contracts/{self.name}.unit {self.repo} {self.dir}/{out}.rs {self.dir}/{out}.json "
               + ("--canary " if canary else "") + (f"--derive {self.derive} " if self.derive else "") + stubs, 60)
        if r.returncode != 0:
            return "extraction failed: " + (r.stderr or r.stdout)[-500:]
        return None

    def verus(self, out, errs, extra=""):
        extra += "".join(f" --verify-only-module {m}" for m in self.modules)
        return sh(f"cd {self.dir} && timeout -k 5 400 verus {out}.rs --crate-type=bin --output-json --time-expanded "
                  f"--error-format=json --multiple-errors {errs} --num-threads 4 {extra}", 420)

    def run(self):
        t0 = time.time()
        try:
            self.run_()
        except Exception as e:  # the proof part never decides anything by crashing
            self.broken = f"the proof driver failed on this tree: {e!r}"
        self.wall = time.time() - t0

    def run_(self):
        with open(os.path.join(self.here, "contracts", "anchors.json")) as f:
            base = json.load(f).get(self.name, {})
        for round_ in range(MAX_ROUNDS):
            why = self.extract("out")
            if why:
                self.broken = why
                return
            self.load("out")
            r = self.verus("out", 12)
            try:
                j = json.loads(r.stdout)
            except ValueError:
                self.broken = "the verifier gave no answer: " + (r.stderr or r.stdout)[-800:]
                return
            diags = self.diagnostics(r.stderr)
            res = j.get("verification-results", {})
            front = [d for d in diags if d["level"] == "error" and not VERIF.search(d["message"])
                     and not RLIMIT.search(d["message"]) and not d["message"].startswith("aborting due to")]
            if not front and "verified" in res:
                # a changed closure is described by its own text, if that can be read as a specification
                new = self.changed_closures(diags, base) - self.auto
                if new and round_ + 1 < MAX_ROUNDS:
                    self.auto |= new
                    continue
                break
            # the verifier cannot read something: leave those bodies out, and count the functions as undecided
            new = {}
            for d in front:
                for s in d["spans"] + [s for c in d["children"] for s in c["spans"]]:
                    f = self.at(s)
                    if f and f.to > f.__dict__["from"] and not f.stub and f.key not in self.forced:
                        new[f.key] = "the verifier cannot read it: " + d["message"][:200]
                        break
            if not new:
                self.broken = "the verifier rejects the extracted code: " + "; ".join(d["message"] for d in front)[:800] + r.stderr[-200:] * (not front)
                return
            self.forced.update(new)
        else:
            self.broken = "the verifier rejects the extracted code: " + json.dumps(self.forced)[:800]
            return
        self.verified = res.get("verified", 0)
        self.smt_ms = sum(m.get("time", 0) for m in j.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []))
        self.log = "\n".join(d["rendered"] for d in diags if d["level"] == "error")
        names = {f.key.split("::")[-1] for f in self.fns.values() if not f.contract or f.key in self.forced}
        names -= {"default", "clone"}
        for d in diags:
            if d["level"] != "error" or d["message"].startswith("aborting due to"):
                continue
            self.attribute(d)
        for f in self.fns.values():
            if not f.here:
                continue
            if f.key in self.forced:
                f.undecided.append(self.forced[f.key])
            if f.lost and (f.errors or not all(l.startswith("no ") for l in f.lost)):
                f.undecided.append("annotation without its place: " + "; ".join(f.lost))
            if f.errors:
                helpers = sorted(set(f.calls) & names)
                if helpers:
                    f.undecided.append("calls functions without a contract: " + ", ".join(helpers))
                was, now = base.get(f.key), [a for a in f.anchors if not a.startswith("auto ")]
                if was is not None and was != now:
                    said = {a.split(":")[0].split()[1] for a in f.anchors if a.startswith("auto ")}
                    if set(self.closures_only(was, now) or ["?"]) <= said and not f.auto_fails:
                        continue
                    f.undecided.append("a loop or closure its annotations describe was rewritten")
                elif was is None and f.anchors:
                    f.undecided.append("has a loop or closure without annotations")
        self.timing(j)
        self.canary()

    @staticmethod
    def closures_only(was, now):
        """the numbers of the closures that changed, None if something else changed too"""
        if len(was) != len(now):
            return None
        res = []
        for a, b in zip(was, now):
            m = re.match(r"closure (\d+): ", a)
            if a != b:
                if not m or not b.startswith(m.group(0)):
                    return None
                res.append(m.group(1))
        return res

    def changed_closures(self, diags, base):
        res = set()
        for d in diags:
            for s in d["spans"] if d["level"] == "error" else []:
                f = self.at(s)
                if f and f.here and f.key not in self.forced and f.key in base:
                    for n in self.closures_only(base[f.key], f.anchors) or []:
                        res.add(f"{f.key}#{n}")
        return res

    def load(self, out):
        d = json.load(open(f"{self.dir}/{out}.json"))
        self.missing, self.dropped, self.notes = d["missing"], d["dropped"], d["notes"]
        self.lines = open(f"{self.dir}/{out}.rs").read().split("\n")
        self.modules = d["verify"]
        self.fns = {}
        for x in d["functions"]:
            self.fns[x["path"]] = f = Fn(x)
            # functions verified in another unit: their contracts are used here
            inside = [m for m in d["modules"] if f.key.startswith(m + "::")]
            f.here = not self.modules or max(inside, key=len, default="") in self.modules
        self.by_line = sorted((f.__dict__["from"], f.to, f) for f in self.fns.values() if f.to)
        traits = {}
        for f in self.fns.values():
            a = f.__dict__["from"]
            f.clauses = clauses(self.lines, a, f.to)
            m = re.match(r"(.*)::([^:]+)::([^:]+)$", f.key)
            if m and "@" not in m.group(2):
                traits[(m.group(2), m.group(3))] = f
        for f in self.fns.values():
            m = re.match(r".*@([A-Za-z]+)(?:<.*>)?::([^:]+)$", f.key)
            t = m and traits.get((m.group(1), m.group(2)))
            if t:
                f.clauses = t.clauses + f.clauses
                t.trait_decl = True
        self.trusted = trusted(self.lines)

    def at(self, span):
        if not span["file_name"].endswith("out.rs") and not span["file_name"].endswith("canary.rs"):
            return None
        best = None
        for a, b, f in self.by_line:
            if a <= span["line_start"] <= b:
                best = f
        return best

    def diagnostics(self, text):
        res = []
        for l in text.split("\n"):
            if l.startswith("{"):
                try:
                    d = json.loads(l)
                except ValueError:
                    continue
                if "message" in d and "spans" in d:
                    d.setdefault("children", [])
                    d["rendered"] = d.get("rendered") or d["message"]
                    res.append(d)
        return res

    def attribute(self, d):
        spans = d["spans"]
        clause, where = None, None
        for s in spans:
            if s["label"] in ("failed this postcondition", "failed precondition"):
                clause = s
        for s in spans:
            if s is not clause:
                where = where or self.at(s)
        if where is None and clause is not None:
            where = self.at(clause)
        if where is None:
            # an obligation of a lemma or of a spec function
            self.broken = "an obligation outside the functions of the repository fails: " + d["rendered"][:600]
            return
        if RLIMIT.search(d["message"]):
            where.undecided.append("resource limit")
            return
        tags, kind = None, "own"
        if clause is not None and d["message"].startswith("postcondition"):
            tags = tags_of(self.lines[clause["line_start"] - 1])
        elif "invariant" in d["message"] or "post-condition of closure" in d["message"]:
            kind = "invariant"
        else:
            kind = "panic"
        if clause is not None and "/*auto*/" in self.lines[clause["line_start"] - 1]:
            where.auto_fails = True
        where.errors.append((tags, kind, d["rendered"]))

    def timing(self, j):
        for m in j.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
            for b in m.get("function-breakdown", []):
                name = b["function"].split("::", 1)[-1]
                for f in self.fns.values():
                    if plain(f.key) == name:
                        f.micros += b.get("time-micros", 0)
                        break

    def canary(self):
        """every function under contract must refute `assert(false)`: its preconditions and what it assumes are consistent"""
        why = self.extract("canary", canary=True)
        if why:
            return
        lines = open(f"{self.dir}/canary.rs").read().split("\n")
        d = json.load(open(f"{self.dir}/canary.json"))
        r = self.verus("canary", 400)
        hit = set()
        for x in self.diagnostics(r.stderr):
            if x["message"].startswith("assertion failed"):
                for s in x["spans"]:
                    hit.add(s["line_start"])
        self.canaries = self.refuted = 0
        for x in d["functions"]:
            f = self.fns.get(x["path"])
            at = [i + 1 for i in range(x["from"] - 1, x["to"]) if re.search(r"assert\s*\(\s*false\s*\)", lines[i])]
            if not f or not at or not f.here:
                continue
            self.canaries += 1
            f.canary = any(i in hit for i in at)
            if f.canary:
                self.refuted += 1
            elif not f.errors and not f.undecided:
                f.undecided.append("vacuous: `assert(false)` at its end is accepted")


VERIF = re.compile(r"^(postcondition not satisfied|precondition not satisfied|assertion failed|invariant not satisfied|"
                   r"possible arithmetic|possible division|possible bit shift|possible integer|decreases not satisfied|"
                   r"unreachable|loop invariant|loop ensures|could not show|recommendation not met|cannot show|"
                   r"assertion may|possible overflow|index out of bounds|Call to non-static function fails|"
                   r"constructed value may fail|unable to prove)")
RLIMIT = re.compile(r"[Rr]esource limit|rlimit")


def plain(path):
    """the verifier's name of a function: impl parts lose their trait"""
    return "::".join(p.split("@")[0] for p in path.split("::"))


def tags_of(line):
    m = re.search(r"//\s*((?:@C\d\d\s*)+)", line)
    return re.findall(r"C\d\d", m.group(1)) if m else None


def clauses(lines, a, b):
    """the postconditions between two lines: one per line that ends with a comma outside brackets"""
    res, on, depth, start, text = [], False, 0, 0, ""
    for i in range(a, b):
        l = lines[i]
        s = l.strip()
        if s.startswith("ensures"):
            on, s = True, s[len("ensures"):].strip()
        elif s.startswith(("requires", "decreases", "invariant")):
            on = False
        if s in ("{", ";") or s.startswith(("{ loop", "proof {")):
            break
        if not on or not s:
            continue
        code = s.split("//")[0].rstrip()
        text += " " + code
        depth += sum(code.count(c) for c in "([{") - sum(code.count(c) for c in ")]}")
        if depth == 0 and (code.endswith(",") or i + 1 < b and lines[i + 1].strip() in ("{", ";")):
            res.append((i + 1, tags_of(l), text.strip()))
            text = ""
    return res


def trusted(lines):
    """external_body functions and uninterpreted symbols of the emitted file"""
    res, mod, want = [], [], False
    for l in lines:
        s = l.strip()
        m = re.match(r"pub mod (\w+) \{", s)
        if "external_body" in s:
            want = True
        m = re.match(r"(?:pub )?(?:broadcast )?(?:uninterp spec |proof |axiom )?fn\s+(\w+)", s)
        if m and (want or "uninterp" in s or s.startswith(("axiom", "broadcast axiom", "pub axiom"))):
            res.append(("uninterpreted " if "uninterp" in s else "") + m.group(1))
            want = False
        elif re.match(r"(pub )?struct", s):
            want = False
    return res


def derive_tool(repo, build, here):
    """the repository's own derive macro as a program, built from its current source"""
    d = os.path.join(build, "derive")
    src = os.path.join(repo, "component", "macros", "src")
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    with open(os.path.join(src, "lib.rs")) as f:
        mods = re.findall(r"^\s*(?:pub(?:\([^)]*\))? )?mod (\w+);", f.read(), re.M)
    sh(f"cp -r {src}/. {d}/src/ && rm -f {d}/src/lib.rs && cp {here}/derive/Cargo.toml {here}/derive/Cargo.lock {d}/")
    with open(os.path.join(here, "derive", "src", "main.rs")) as f:
        main = f.read()
    with open(os.path.join(d, "src", "main.rs"), "w") as f:
        f.write(main.replace("mod parse_frames;\nmod utils;\n", "".join(f"mod {m};\n" for m in mods)))
    r = sh(f"cd {d} && CARGO_TARGET_DIR={d}/target cargo build --offline", 600)
    if r.returncode != 0:
        return None, "the derive macro does not build as a program: " + r.stderr[-400:]
    return os.path.join(d, "target", "debug", "derive"), None


class Proof:
    def __init__(self, prop, tier, repo, build, here):
        self.prop, self.tier, self.repo, self.build, self.here = prop, tier, repo, build, here
        self.units, self.why = [], None
        self.kani, self.kani_ok = None, True
        self.names = props.UNITS.get(prop, [])

    def run(self):
        if not self.names:
            return
        target = os.path.join(self.build, "extract")
        os.makedirs(target, exist_ok=True)
        r = sh(f"cd {self.here}/extract && CARGO_TARGET_DIR={target} cargo build --offline", 600)
        if r.returncode != 0:
            self.why = "the extractor does not build: " + r.stderr[-400:]
            return
        exe = os.path.join(target, "debug", "extract")
        derive = None
        if "parse" in self.names or "conn" in self.names:
            derive, self.why = derive_tool(self.repo, self.build, self.here)
            if self.why:
                return
        self.units = [Unit(n, self.repo, self.build, self.here, exe, derive) for n in self.names]
        ts = [threading.Thread(target=u.run) for u in self.units]
        for t in ts:
            t.start()
        self.floats()
        for t in ts:
            t.join()

    def floats(self):
        """the order model of f64, for every bit pattern (kani, complete)"""
        if self.prop not in ("C14", "C15", "C16"):
            return
        d = os.path.join(self.build, "kani")
        os.makedirs(d, exist_ok=True)
        r = sh(f"cd {d} && cp {self.here}/kani/floats.rs . && kani floats.rs", 300)
        m = re.search(r"Complete - (\d+) successfully verified harnesses, (\d+) failures", r.stdout)
        self.kani = m.group(0) if m else "kani gave no result: " + (r.stdout + r.stderr)[-300:]
        self.kani_ok = bool(m) and m.group(2) == "0"

    # ---- what counts for this property

    def mine(self, f, tags, kind):
        if tags is not None:
            return self.prop in tags
        if kind == "panic" and self.prop == "C03":
            return True
        return self.prop in own(f.key)

    def relevant(self):
        """(unit, function, number of obligations)"""
        res = []
        for u in self.units:
            for f in u.fns.values():
                if not f.here or not f.contract or (f.stub and f.key not in u.forced) or getattr(f, "trait_decl", False):
                    continue
                n = sum(self.mine(f, t, "own") for _, t, _ in f.clauses) + self.mine(f, None, "panic")
                if n:
                    res.append((u, f, n))
        return res

    def failed(self):
        res = []
        for u, f, _ in self.relevant():
            if u.broken or f.undecided:
                continue
            for tags, kind, text in f.errors:
                if self.mine(f, tags, kind):
                    res.append(f"{f.key} ({f.file}:{f.src_line}) contract of {self.prop}:\n{text}")
        return res

    def undecided(self):
        res = [self.why] if self.why else []
        if not self.kani_ok:
            res.append("the model of f64 is not confirmed: " + self.kani)
        for u in self.units:
            if u.broken:
                res.append(f"unit {u.name}: {u.broken}")
            for m in u.missing:
                if u.modules and not any(m.startswith(x + "::") for x in u.modules):
                    continue
                if self.prop in own(m) or self.prop in props.EVERYWHERE:
                    res.append(f"function under contract not found: {m}")
        for u, f, _ in self.relevant():
            for r in f.undecided:
                res.append(f"{f.key}: {r}")
            if not f.undecided and any(k == "invariant" for _, k, _ in f.errors) and self.prop not in own(f.key):
                res.append(f"{f.key}: a loop invariant fails")
        return res

    def output(self):
        return "\n".join(u.log for u in self.units)

    def counts(self):
        total = done = 0
        for u, f, n in self.relevant():
            total += n
            if u.broken or f.undecided:
                continue
            bad = sum(1 for t, k, _ in f.errors if self.mine(f, t, k))
            if any(k == "invariant" for _, k, _ in f.errors):
                bad = n
            done += max(0, n - bad)
        return total, done

    def summary(self):
        if not self.names:
            return "proof: no contracts for this property"
        total, done = self.counts()
        s = f"proof: {done} of {total} obligations of {self.prop} discharged in {len(self.relevant())} functions"
        for u in self.units:
            s += f"\n  unit {u.name}: {u.verified} verified, {u.smt_ms} ms in z3, {u.wall:.0f} s, vacuity canaries refuted {getattr(u, 'refuted', 0)}/{getattr(u, 'canaries', 0)}"
        for x in self.undecided():
            s += "\n  UNDECIDED " + x[:600]
        return s

    def evidence(self):
        if not self.names:
            return None
        total, done = self.counts()
        rel = self.relevant()
        return {
            "complete": total > 0 and total == done and not self.undecided() and props.CHECKS[self.prop]["level"] == "proof",
            "obligations": total,
            "discharged": done,
            "obligations_are": "postconditions of the functions below that state this property, one more per function for the absence of "
                               "panics, overflow and violated callee preconditions where the property owns the function; counted on this run",
            "checker_cmd": "; ".join(f"verus {u.dir}/out.rs --crate-type=bin (extracted from {self.repo} by extract {u.name}.unit)" for u in self.units),
            "back_end": "Verus 0.2026.09.13 with Z3",
            "functions_under_contract": [
                {"function": f.key, "source": f"{f.file}:{f.src_line}", "obligations": n, "solver_ms": round(f.micros / 1000, 1),
                 "status": "undecided" if u.broken or f.undecided else "failed" if f.errors else "discharged"}
                for u, f, n in rel],
            "solver_ms": sum(u.smt_ms for u in self.units),
            "queries_verified_in_units": {u.name: u.verified for u in self.units},
            "vacuity_canaries": {u.name: f"{getattr(u, 'refuted', 0)} of {getattr(u, 'canaries', 0)} functions refute assert(false)" for u in self.units},
            **({"float_model": "kani/floats.rs, all bit patterns: " + self.kani} if self.kani else {}),
            "undecided": self.undecided(),
            "trusted_base": self.trusted_base(),
            "extraction": sorted({x for u in self.units for x in u.notes} | {"left out: " + x for u in self.units for x in u.dropped}),
        }

    def trusted_base(self):
        res = ["Verus, Z3, rustc; the extractor (/verif/extract): rewritings listed under `extraction`"]
        for u in self.units:
            res.append(f"unit {u.name}: assumed contracts and uninterpreted symbols: " + ", ".join(sorted(set(u.trusted))))
            st = [f.key for f in u.fns.values() if f.stub and f.here]
            if st:
                res.append(f"unit {u.name}: repository functions whose contract is assumed: " + ", ".join(st))
        return res + props.TRUST

    def undecided_text(self):
        total, done = self.counts()
        u = self.undecided()
        s = f"Contracts discharged by the verifier for all inputs: {done} of {total} obligations"
        if u:
            s += " (undecided on this tree: " + "; ".join(u)[:1500] + ")"
        return s + ". " + props.CHECKS[self.prop].get("rest", "")

    def no_unit_text(self):
        return "No contract is discharged for this property. " + props.CHECKS[self.prop].get("rest", "")

    def assumptions(self):
        return props.ASSUME + props.CHECKS[self.prop].get("assume", [])
