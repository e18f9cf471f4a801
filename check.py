#!/usr/bin/env python3
"""check.py ID [quick|thorough]

Decides one property of /repo's current working tree.

1. The unit of the property is assembled: the contracts in units/ plus the functions they
   are about, extracted from /repo/src on this run (tools/vx.py).
2. Verus discharges every obligation of the unit, function by function.  A second run with
   assert(false) at the entry of every function under contract must fail in each of them
   (no contract is vacuous).
3. The executable form of the contracts is run against the real functions in /repo on
   enumerated and seeded inputs (harness/): it gives the failing input when an obligation
   fails, and stands in, bounded, where the proof no longer applies to the changed text.

Exit 0: held.  Exit 1 with a VIOLATION line: a failed obligation or a failing input.
"""
import hashlib, json, os, re, shutil, signal, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
import vx, mirror  # noqa: E402
from props import PROPS  # noqa: E402

REPO = vx.REPO
BUILD = os.path.join(HERE, ".build")
REPLAY = os.path.join(HERE, "replay")
ENV = dict(os.environ)


def load_env():
    """the build settings of this sandbox (/opt/vp/env.sh), with fallbacks"""
    env = dict(os.environ)
    env.update({
        "HOME": "/root", "RUSTUP_TOOLCHAIN": "stable-x86_64-unknown-linux-gnu",
        "PATH": "/root/.cargo/bin:/usr/local/cargo/bin:" + env.get("PATH", "/usr/bin:/bin"),
        "CARGO_NET_OFFLINE": "true", "CARGO_INCREMENTAL": "1",
        "CARGO_PROFILE_DEV_DEBUG": "line-tables-only", "CARGO_TERM_COLOR": "never", "RUSTC_WRAPPER": "",
        "CARGO_TARGET_DIR": os.path.join(REPO, "target"), "ORT_LIB_LOCATION": "/nonexistent",
        "CARGO_TARGET_X86_64_UNKNOWN_LINUX_GNU_LINKER": "/opt/vp/cc-without-ort",
    })
    return env


def run(cmd, timeout, cwd=None, env=None):
    """(returncode or None on timeout, stdout, stderr); the whole process group is ended"""
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         text=True, errors="replace", start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
        return p.returncode, out, err
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        out, err = p.communicate()
        return None, out, err


# ------------------------------------------------------------------ the proof
PROOF_ERRORS = re.compile(
    r"postcondition not satisfied|precondition not satisfied|invariant not satisfied|assertion failed|"
    r"possible arithmetic underflow/overflow|decreases not satisfied|possible division by zero|"
    r"recommendation not met|unreachable|loop ensures|possible bit shift|requirement not met|"
    r"unable to prove|could not prove|constructed value may fail")
SOFT = re.compile(r"Resource limit|rlimit|timed out|canceled|not all errors may have been reported|aborting due to|could not (show|prove) termination")


def parse_errors(text):
    """[(message, line, [lines of all spans])]"""
    out = []
    blocks = re.split(r"\n(?=error|note|warning)", "\n" + text)
    for b in blocks:
        b = b.lstrip("\n")
        m = re.match(r"error(\[E\d+\])?: (.*)", b)
        if not m:
            continue
        if m.group(2).startswith("aborting due to"):
            continue
        loc = re.search(r"--> \S*?:(\d+):\d+", b)
        out.append({"msg": m.group(2), "rustc": bool(m.group(1)), "line": int(loc.group(1)) if loc else 0, "text": b.rstrip()})
    return out


class Proof:
    def __init__(self, pid, cfg, tier):
        self.pid, self.cfg, self.tier = pid, cfg, tier
        self.status = "undecided"   # proved | failed | undecided
        self.reason = ""
        self.failed = []            # [(tag, message, text)] owned
        self.foreign = []           # obligations of other properties' files
        self.verified = self.errors = 0
        self.vacuous = []
        self.smt_ms = 0
        self.log = ""
        self.unit = None
        self.wall = 0.0
        self.cmd = ""

    def extract(self, probe):
        u = vx.Unit(os.path.join(HERE, "units", self.cfg["unit"]))
        u.probe = probe
        u.process()
        name = "%s%s.rs" % (self.pid.lower(), "_probe" if probe else "")
        path = os.path.join(BUILD, name)
        with open(path, "w") as f:
            f.write(u.text())
        return u, path

    def verus(self, path, extra, timeout):
        cmd = ["verus", "--triggers-mode", "silent", "--time", "--output-json"] + extra + [path]
        rc, out, err = run(cmd, timeout, cwd=BUILD)
        try:
            j = json.loads(out[out.index("{"):])
        except ValueError:
            j = {}
        return rc, j, err, cmd

    def go(self):
        t0 = time.time()
        try:
            self.decide()
        finally:
            self.wall = time.time() - t0

    def decide(self):
        os.makedirs(BUILD, exist_ok=True)
        try:
            self.unit, path = self.extract(False)
            punit, ppath = self.extract(True)
        except vx.Lost as e:
            self.reason = "the contracts no longer fit the source text: %s" % e
            return
        except Exception as e:  # noqa: BLE001
            self.reason = "extraction failed on the changed text: %r" % e
            return
        rlimit = ["--rlimit", str(self.cfg.get("rlimit", 30))]
        probe = {}
        th = threading.Thread(target=lambda: probe.update(r=self.verus(ppath, ["--multiple-errors", "0", "--rlimit", "5"], 400)))
        th.start()
        rc, j, err, cmd = self.verus(path, rlimit, 400)
        self.cmd = " ".join(cmd)
        self.log = err
        res = j.get("verification-results", {})
        self.verified, self.errors = res.get("verified", 0), res.get("errors", 0)
        self.smt_ms = j.get("times-ms", {}).get("smt", {}).get("smt-run", 0)
        errs = parse_errors(err)
        if rc is None:
            self.reason = "the verifier ran out of time"
        elif rc == 0 and res.get("success") and self.errors == 0 and self.verified > 0:
            self.status = "proved"
        elif any(e["rustc"] or not (PROOF_ERRORS.search(e["msg"]) or SOFT.search(e["msg"])) for e in errs) or not errs or "verified" not in res:
            bad = [e for e in errs if e["rustc"] or not PROOF_ERRORS.search(e["msg"])]
            self.reason = "the changed text is outside the verifier's reach: %s" % (bad[0]["text"][:600] if bad else err[-600:])
        else:
            hard = [e for e in errs if PROOF_ERRORS.search(e["msg"])]
            for e in hard:
                tag = self.unit.tag_at(e["line"])
                item = (tag, e["msg"], e["text"])
                if self.unit.file_at(e["line"]) in self.cfg["owns"]:
                    self.failed.append(item)
                else:
                    self.foreign.append(item)
            if self.failed:
                self.status = "failed"
                self.reason = "; ".join("%s: %s" % (t, m) for t, m, _ in self.failed[:4])
            elif self.foreign:
                self.reason = "an obligation of another property fails: %s" % self.foreign[0][0]
            else:
                self.reason = "the solver gave up within its resource limit"
        th.join()
        if self.status == "proved":
            prc, pj, perr, _ = probe["r"]
            hit = set()
            for e in parse_errors(perr):
                hit.add(punit.tag_at(e["line"]))
                # the probe's own location may be a span further down
                for m in re.finditer(r"--> \S*?:(\d+):\d+", e["text"]):
                    hit.add(punit.tag_at(int(m.group(1))))
            for m in re.finditer(r"--> \S*?:(\d+):\d+", perr):
                hit.add(punit.tag_at(int(m.group(1))))
            want = {"fn %s (%s)" % (f["fn"], f["file"]) for f in punit.fns}
            self.vacuous = sorted(want - hit)
            if prc is None or not perr.strip():
                self.vacuous = ["probe did not run"]
            if self.vacuous:
                self.status = "undecided"
                self.reason = "contracts that could not be shown to be non-vacuous: %s" % ", ".join(self.vacuous)

    def trusted(self):
        if not self.unit:
            return []
        out = []
        lines = [o[0] for o in self.unit.out]
        for i, l in enumerate(lines):
            s = l.strip()
            if s.startswith("pub assume_specification") or s.startswith("assume_specification"):
                out.append("assumed contract: " + re.sub(r"\s+", " ", s.split("assume_specification", 1)[1])[:140].strip())
            elif "axiom fn" in s:
                out.append("axiom: " + re.search(r"axiom fn (\w+)", s).group(1))
            elif "external_body" in s:
                for k in range(i, min(i + 6, len(lines))):
                    m = re.search(r"\bfn (\w+)|\bstruct (\w+)", lines[k])
                    if m:
                        imp = ""
                        for q in range(i, max(0, i - 4), -1):
                            mm = re.match(r"\s*impl.*", lines[q])
                            if mm:
                                imp = lines[q].strip().rstrip("{").strip() + " "
                                break
                        out.append("body not verified: %s%s" % (imp, m.group(1) or m.group(2)))
                        break
            elif re.search(r"\b(assume|admit)\(", s) and not s.startswith("//"):
                out.append("assumption: " + s[:140])
        return sorted(set(out))


# ------------------------------------------------------------------ the bounded checks
class Bounded:
    def __init__(self, pid, cfg, tier, seed):
        self.pid, self.cfg, self.tier, self.seed = pid, cfg, tier, seed
        self.built = False
        self.problem = ""
        self.stats, self.fails = {}, []
        self.wall = 0.0
        self.runs = []
        self.bin = None

    def build(self):
        t0 = time.time()
        out = os.path.join(BUILD, "mirror_" + self.pid.lower())
        try:
            mirror.build(out, self.cfg["support"] + [self.cfg["harness"]])
        except Exception as e:  # noqa: BLE001
            self.problem = "mirror: %r" % e
            return
        env = load_env()
        cmd = ["cargo", "build", "--locked", "--offline", "--bin", mirror.binary(out)]
        rc, o, e = run(cmd, 600, cwd=out, env=env)
        if rc != 0:
            self.problem = "the harness does not compile against this tree: " + "\n".join(
                re.findall(r"^error.*(?:\n.*){0,6}", e, flags=re.M)[:3])[-1500:]
        else:
            src = os.path.join(env["CARGO_TARGET_DIR"], "debug", mirror.binary(out))
            self.bin = os.path.join(BUILD, "vharness_" + self.pid.lower())
            shutil.copy2(src, self.bin)
            self.built = True
        self.build_wall = time.time() - t0

    def run_once(self, seed, secs):
        res = os.path.join(BUILD, "h_%s.json" % self.pid.lower())
        if os.path.exists(res):
            os.unlink(res)
        cmd = [self.bin, self.cfg["harness"], str(seed), self.tier, str(secs), res]
        self.runs.append(" ".join(cmd))
        limit = secs * 4 + 120
        rc, o, e = run(cmd, limit, cwd=BUILD)
        if rc == 0 and os.path.exists(res):
            with open(res) as f:
                d = json.load(f)
            if not d["stats"] and not d["fails"]:
                self.problem = "the harness ran no contract"
                self.built = False
            for k, v in d["stats"].items():
                s = self.stats.setdefault(k, {"evaluations": 0, "nontrivial": 0, "sample": ""})
                s["evaluations"] += v["evaluations"]
                s["nontrivial"] += v["nontrivial"]
                s["sample"] = s["sample"] or v["sample"]
            self.fails += d["fails"]
            self.wall += d["wall_s"]
            return
        # died or hung: find the input
        trace = os.path.join(BUILD, "trace_" + self.pid.lower())
        if os.path.exists(trace):
            os.unlink(trace)
        rc2, o2, e2 = run(cmd + ["--trace", trace], limit, cwd=BUILD)
        what = "hangs" if rc2 is None else "is killed (exit status %s): %s" % (rc2, e2[-300:])
        if rc2 == 0:
            self.problem = "the harness died once (%s) and not again" % (rc,)
            return
        try:
            with open(trace) as f:
                c, i = f.read().split("\n", 1)
        except OSError:
            c, i = "startup", ""
        self.fails.append({"contract": c, "input": i.strip(), "message": "the process " + what})


# ------------------------------------------------------------------ findings
def known():
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        with open(p) as f:
            for l in f:
                m = re.match(r"finding: property=(\S+) contract=(\S+) match=/(.*)/ :: (.*)", l)
                if m:
                    out.append(dict(property=m.group(1), contract=m.group(2), match=m.group(3), what=m.group(4).strip()))
    return out


def write_replay(pid, tier, seed, body):
    os.makedirs(REPLAY, exist_ok=True)
    h = hashlib.sha256(json.dumps(body, sort_keys=True).encode()).hexdigest()[:8]
    path = os.path.join(REPLAY, "%s-%s.json" % (pid, h))
    body = dict(property=pid, tier=tier, seed=seed, repo=REPO, **body)
    with open(path, "w") as f:
        json.dump(body, f, indent=1)
    return path


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cfg = PROPS[pid]
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    proof = Proof(pid, cfg, tier)
    bounded = Bounded(pid, cfg, tier, seed)
    ths = [threading.Thread(target=bounded.build)]
    if cfg.get("unit"):
        ths.append(threading.Thread(target=proof.go))
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    secs = cfg.get("secs", 20) if tier == "quick" else cfg.get("thorough_secs", 120)
    if bounded.built:
        bounded.run_once(seed, secs)
        seeds = range(seed + 1, seed + (1 if tier == "quick" else 3))
        for s in seeds:
            if not bounded.fails:
                bounded.run_once(s, secs)
        if proof.status != "proved" and not bounded.fails:
            # the proof does not decide this tree: look harder
            for s in (seed + 100, seed + 101):
                if not bounded.fails:
                    bounded.run_once(s, max(secs, 60))
    # --- verdict
    listed = [k for k in known() if k["property"] == pid]
    hit, fresh = [], []
    for f in bounded.fails:
        ks = [k for k in listed if k["contract"] == f["contract"] and re.search(k["match"], f["input"], re.S)]
        (hit.extend(ks) if ks else fresh.append(f))
    rc = 0
    for k in {k["what"]: k for k in hit}.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    violations = 0
    if fresh:
        f = fresh[0]
        path = write_replay(pid, tier, seed, dict(
            kind="failing input", contract=f["contract"], input=f["input"], message=f["message"],
            all=fresh[:10], failed_obligations=[dict(at=t, what=m) for t, m, _ in proof.failed],
            rerun=bounded.runs))
        print("%s fails on %s" % (f["contract"], f["input"][:500]))
        print("  " + f["message"][:700])
        for t, m, _ in proof.failed[:5]:
            print("  failed obligation: %s: %s" % (t, m))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        rc, violations = 1, len(fresh)
    elif proof.status == "failed":
        path = write_replay(pid, tier, seed, dict(
            kind="failed obligation", failed_obligations=[dict(at=t, what=m, verifier=x) for t, m, x in proof.failed],
            verifier_cmd=proof.cmd, verifier_output=proof.log[-20000:], bounded_search=bounded.stats, rerun=bounded.runs))
        for t, m, _ in proof.failed[:5]:
            print("failed obligation: %s: %s" % (t, m))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, path))
        rc, violations = 1, len(proof.failed)
    elif proof.status != "proved" and not bounded.built:
        print("UNDECIDED: proof: %s; bounded: %s" % (proof.reason, bounded.problem))
        rc = 2
    elif proof.status == "undecided" and cfg.get("unit"):
        print("NOTE: not proved on this tree (%s); bounded check only" % proof.reason[:400])
    if bounded.problem:
        print("NOTE: bounded check: %s" % bounded.problem[:600])
    evaluations = sum(v["evaluations"] for v in bounded.stats.values())
    nontrivial = sum(v["nontrivial"] for v in bounded.stats.values())
    samples = ["%s: %s" % (k, v["sample"]) for k, v in sorted(bounded.stats.items()) if v["sample"]]
    u = proof.unit
    total = proof.verified + proof.errors
    coverage = {
        "obligations": total,
        "discharged": proof.verified,
        "checker_cmd": proof.cmd or "none",
        "trusted_base": proof.trusted() + ["Verus 0.2026.09.13 with Z3, vstd's contracts for std", "rustc's type and borrow checking",
                                            "the textual extraction in tools/vx.py and its rewrites, listed under rewrites"],
        "proof_status": proof.status,
        "proof_note": proof.reason,
        "obligation_unit": "one verifier query set per function or lemma of the unit",
        "functions_under_contract": ["%s (%s)" % (f["fn"], f["file"]) for f in (u.fns if u else [])],
        "owned_functions": ["%s (%s)" % (f["fn"], f["file"]) for f in (u.fns if u else []) if f["unit"] in cfg["owns"]],
        "non_vacuous_functions": len(u.fns) - len(proof.vacuous) if u and proof.status == "proved" else 0,
        "back_end": "Z3 (through Verus)",
        "solver_ms": proof.smt_ms,
        "proof_wall_s": round(proof.wall, 1),
        "rewrites": u.rw.log if u else {},
        "substitutions": u.subs if u else [],
        "evaluations": evaluations,
        "distinct_nontrivial": nontrivial,
        "rule": "bounded accompaniment, not counted as proved: executable contracts on all small inputs of a fixed "
                "alphabet, then seeded random inputs; inputs are deduplicated by hash per contract; non-trivial: the "
                "input contains what the contract is about (a marker, a bound or free variable, two distinct terms, ...)",
        "samples": samples[:12] or ["none"],
        "bounded_contracts": {k: v["evaluations"] for k, v in bounded.stats.items()},
        "bounded_wall_s": round(bounded.wall, 1),
    }
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": cfg.get("level", "proof"), "coverage": coverage,
        "assumptions": cfg.get("assumptions", []) + proof.trusted(), "wall_s": round(time.time() - t0, 1), "violations": violations,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %s; %d/%d obligations; %d bounded evaluations; %.0f s" % (pid, "held" if rc == 0 else "NOT held", proof.verified, total, evaluations, time.time() - t0))
    return rc


if __name__ == "__main__":
    sys.exit(main())
