#!/usr/local/bin/python3
"""run.py PROPERTY quick|thorough: decides one property on /repo's current tree. See DESIGN.md."""
import json, os, re, subprocess, sys, threading, time, traceback

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "tools"))
WORK = os.path.join(ROOT, "work")
LLSYM = os.path.join(ROOT, "engine/target/release/llsym")
T0 = time.time()


class Fail(Exception):
    """The check could not decide (neither pass nor violation)."""


def env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_") or k in ("RUSTC_WRAPPER", "RUSTFLAGS", "RUSTC", "RUSTDOCFLAGS"):
            if k not in ("CARGO_HOME",):
                del e[k]
    e.update(RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTFLAGS="")
    return e


def sh(cmd, timeout=600, cwd=ROOT, extra=None):
    e = env()
    e.update(extra or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
    return p


def must(cmd, what, **kw):
    p = sh(cmd, **kw)
    if p.returncode != 0:
        raise Fail("%s failed (%d):\n%s\n%s" % (what, p.returncode, p.stdout[-3000:], p.stderr[-6000:]))
    return p.stdout


class Group:
    """A harness crate: how to get its IR and its native replay binary."""

    def __init__(self, crate):
        self.crate = os.path.join(ROOT, crate)
        self.name = crate
        self.ll = None
        self.native = None
        self.err = None
        self.thread = None

    def prepare(self):
        pass

    def build_ll(self):
        out = must(["sh", os.path.join(self.crate, "build_ll.sh")], self.name + " to LLVM IR")
        self.ll = [os.path.join(self.crate, x) for x in out.split()]

    def start_native(self):
        def go():
            try:
                must(["cargo", "build", "--offline", "-q", "--target-dir", "target/native"], "native build of " + self.name, cwd=self.crate)
                self.native = os.path.join(self.crate, "target/native/debug", self.binname())
            except Exception as e:
                self.err = e

        self.thread = threading.Thread(target=go, daemon=True)
        self.thread.start()

    def binname(self):
        return "harness"

    def get_native(self):
        self.thread.join()
        if self.err:
            raise Fail(str(self.err))
        return self.native


def replay(native, entry, inputs, timeout=60):
    try:
        p = sh([native, entry], extra={"SYM_INPUTS": ",".join(str(v) for _, v in inputs)}, timeout=timeout)
    except subprocess.TimeoutExpired:
        return "timeout", ""
    t = p.stderr
    if "REPLAY-VIOLATION" in t:
        return "violation", t.split("REPLAY-VIOLATION", 1)[1].splitlines()[0].strip()
    if "REPLAY-PASSED" in t or p.returncode == 0:
        return "passed", ""
    return "other", "exit %d: %s" % (p.returncode, t[-500:])


def known_findings():
    p = os.path.join(ROOT, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


class Run:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.violations = []  # (text, replay path)
        self.known = []
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.entries = []
        self.functions = set()
        self.assumptions = []
        self.bounds = []
        self.budget = 780 if tier == "thorough" else 600

    def left(self):
        return self.budget - (time.time() - T0)

    def report(self, text, data):
        for k in known_findings():
            if k.get("property") == self.prop and k.get("status") == "known" and re.search(k["match"], text):
                if k["what"] not in self.known:
                    self.known.append(k["what"])
                return
        d = os.path.join(WORK, "replays")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%d.json" % (self.prop, len(self.violations)))
        json.dump(data, open(p, "w"), indent=1)
        self.violations.append((text, p))

    def llsym(self, group, entries, args=(), jobs=8, grace=True):
        """Runs entry points of a built group and settles every event. With grace, a violation ends the run soon."""
        out = os.path.join(WORK, "%s-%s.json" % (self.prop, group.name.replace("/", "_")))
        os.makedirs(WORK, exist_ok=True)
        cmd = [LLSYM]
        for l in group.ll:
            cmd += ["--ll", l]
        for e in entries:
            cmd += ["--entry", e]
        cmd += ["--jobs", str(jobs), "--deadline", str(int(max(30, self.left() - 40))), "--out", out, "--samples", "8", "--max-viol", "40"] + list(args)
        if grace:
            cmd += ["--grace", "40"]  # a violation has been found: a short while to find others
        p = sh(cmd, timeout=900)
        if p.returncode not in (0, 1, 2) or not os.path.exists(out):
            raise Fail("llsym exit %d\n%s" % (p.returncode, p.stderr[-3000:]))
        d = json.load(open(out))
        problems = []
        native = None
        for e in d["entries"]:
            name = e["entry"]
            self.cov["states"] += e["paths"]
            self.cov["transitions"] += e["forks"] + e["paths"]
            self.entries.append({k: e[k] for k in e if k not in ("functions", "events")})
            self.functions.update(e["functions"])
            if e["status"] != 0:
                problems.append("%s: engine worker status %d" % (name, e["status"]))
            if not any(k.startswith("ASSERT ") for k in e["labels"]) and not e["violations"]:
                problems.append("%s: no assertion was reached" % name)
            errs, viols, samples = [], [], []
            for ev in e["events"]:
                {"error": errs, "violation": viols, "sample": samples}.get(ev["ev"], []).append(ev)
            # validate the encoding against the real program: the same inputs, run natively, must pass too
            seen = 0
            for s in samples:
                if native is None:
                    native = group.get_native()
                r, why = replay(native, name, s["inputs"])
                if r != "passed":
                    # the engine says this path satisfies every assertion it contains so far; a native
                    # failure means the encoding is wrong, unless the path itself reported a violation
                    if not viols:
                        problems.append("%s: sample path disagrees with the native run: %s %s %s" % (name, r, why, s))
                else:
                    seen += 1
            self.cov["traces_validated_against_impl"] += seen
            for s in samples[:2]:
                self.cov["samples"].append({"entry": name, "inputs": s["inputs"], "notes": s["notes"]})
            by = {}
            for v in viols:
                by.setdefault((v["label"], tuple(v.get("notes") or [])), v)
            conf = 0
            for (label, notes), v in by.items():
                if conf >= 30:
                    break
                if native is None:
                    native = group.get_native()
                r, why = replay(native, name, v["inputs"])
                if r == "violation":
                    conf += 1
                    text = "%s | %s | %s" % (name, why, " ; ".join(notes))
                    self.report(text, {"property": self.prop, "entry": name, "assertion": why, "inputs": v["inputs"], "notes": list(notes),
                                       "replay": "SYM_INPUTS=%s %s %s" % (",".join(str(x) for _, x in v["inputs"]), native, name)})
                else:
                    problems.append("%s: counterexample does not reproduce natively (%s %s): %s %s" % (name, r, why, label, v["inputs"]))
            for er in errs[:5]:
                problems.append("%s: engine error: %s at %s" % (name, er.get("msg"), er.get("at", "")[:300]))
            if not viols and not errs and e["violations"]:
                problems.append("%s: violations without events" % name)
        self.cov.setdefault("z3", d["z3"])
        return problems

    def finish(self, problems):
        seen = {k["what"] for k in known_findings() if k.get("property") == self.prop and k.get("status") == "known"}
        for w in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, w))
        c = self.cov
        tot = lambda k: sum(e[k] for e in self.entries)
        if self.entries:
            c["entries"] = self.entries
            c["queries"] = {"discharged_by_solver": tot("discharged"), "all": tot("queries"), "unsat": tot("unsat"), "sat": tot("sat"), "unknown": tot("unknown"),
                            "assertions_reached": tot("asserts"), "solver_s": round(tot("solver_s"), 2), "branches_decided_by_enumerating_remaining_assignments": tot("tabled")}
        fs = sorted(demangle(f) for f in self.functions)
        own = [f for f in fs if "doctor_syn" in f or "libm" in f or "lib32" in f or "lib64" in f or f.startswith("h_")]
        c["functions_encoded"] = {"from_repo": own[:400], "count": len(fs)}
        c["bounds"] = self.bounds
        ev = {"property": self.prop, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
              "coverage": c, "assumptions": self.assumptions, "wall_s": round(time.time() - T0, 2), "violations": len(self.violations)}
        if not c["samples"]:
            c["samples"] = ["none"]
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        p = os.path.join(ROOT, "evidence", self.prop + ".json")
        json.dump(ev, open(p, "w"), indent=1)
        for t, p in self.violations[:10]:
            print("violated: %s" % t)
        if self.violations:
            print("VIOLATION property=%s replay=%s" % (self.prop, self.violations[0][1]))
            for x in problems[:5]:
                print("note: %s" % x)
            return 1
        if problems:
            for x in problems[:20]:
                print("UNDECIDED %s" % x)
            return 2
        print("%s %s: held; %d paths, %d assertions, %.0f s" % (self.prop, self.tier, c["states"], tot("asserts") if self.entries else 0, time.time() - T0))
        return 0


def demangle(n):
    """Legacy and v0 Rust names, roughly: enough to list functions."""
    m = re.match(r"_ZN(.*)E$", n)
    if m:
        s, out = m.group(1), []
        while s:
            k = re.match(r"(\d+)", s)
            if not k:
                break
            l = int(k.group(1))
            s = s[len(k.group(1)):]
            out.append(s[:l])
            s = s[l:]
        if out and re.match(r"h[0-9a-f]{16}$", out[-1]):
            out.pop()
        t = "::".join(out)
        for a, b in (("$LT$", "<"), ("$GT$", ">"), ("$u20$", " "), ("..", "::"), ("$RF$", "&"), ("$C$", ","), ("$u7b$", "{"), ("$u7d$", "}"), ("$LP$", "("), ("$RP$", ")")):
            t = t.replace(a, b)
        return t
    if n.startswith("_R"):
        return "::".join(re.findall(r"\d+_?([A-Za-z_][A-Za-z0-9_]*)", re.sub(r"s[0-9A-Za-z]*_", "", n)))[:160] or n
    return n


def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    import checks

    r = Run(prop, tier)
    ev = os.path.join(ROOT, "evidence", prop + ".json")
    if os.path.exists(ev):
        os.remove(ev)
    try:
        must(["sh", os.path.join(ROOT, "engine/build.sh")], "engine build")
        problems = checks.CHECKS[prop](r, tier)
        rc = r.finish(problems)
    except Fail as e:
        print("UNDECIDED %s" % e)
        rc = 2
    except subprocess.TimeoutExpired as e:
        print("UNDECIDED timeout %s" % e)
        rc = 2
    sys.stdout.flush()
    os._exit(rc)


if __name__ == "__main__":
    sys.modules["run"] = sys.modules["__main__"]
    main()
