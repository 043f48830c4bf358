#!/usr/bin/env python3
"""Decides one property: model checks the TLA+ specification, generates behaviours
from it, replays them into the real code built from /repo, and/or validates traces
recorded from the real code against the specification.

usage: check.py <property> [--tier quick|thorough]
exit 0: held; exit 1 + "VIOLATION property=<id> replay=<path>": broken; exit 2: error.
"""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, time

ROOT = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(ROOT, "spec")
HARNESS = os.path.join(ROOT, "harness")
FDH = os.path.join(HARNESS, "target", "debug", "fdh")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
sys.path.insert(0, ROOT)
from plan import PLAN, CFG  # noqa: E402


class ToolError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def sh(cmd, timeout, env=None, cwd=None, out=None):
    try:
        if out:
            with open(out, "w") as f:
                r = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, timeout=timeout, env=env, cwd=cwd)
        else:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env, cwd=cwd, text=True)
        return r
    except subprocess.TimeoutExpired:
        raise ToolError("timeout: " + " ".join(cmd))


FEATURE = {"adsr": "env", "buffers": "buffers", "wave": "waves", "resample": "waves", "route": "expr", "net": "", "idgen": ""}


def build(pid):
    feats = sorted({FEATURE.get(st["sys"], st["sys"]) for st in PLAN[pid]["stages"] if "sys" in st} - {""})
    env = dict(os.environ)
    env["RUSTFLAGS"] = "--cfg fundsp_verif -Awarnings"
    env["CARGO_NET_OFFLINE"] = "true"
    r = sh(["cargo", "build", "--offline", "--quiet", "--features", ",".join(feats)], 700, env=env, cwd=HARNESS)
    if r.returncode != 0:
        log(r.stdout[-4000:])
        raise ToolError("harness build failed")


def write_cfg(path, c):
    """c: dict with spec, consts, invariants, properties, extra."""
    lines = ["SPECIFICATION " + c["spec"], "CONSTANTS"]
    for k, v in c["consts"].items():
        if isinstance(v, bool):
            lines.append(f"  {k} = {'TRUE' if v else 'FALSE'}")
        elif isinstance(v, str) and v.startswith("<-"):
            lines.append(f"  {k} {v}")
        elif isinstance(v, str) and v.startswith("{"):
            lines.append(f"  {k} = {v}")
        elif isinstance(v, str):
            lines.append(f'  {k} = "{v}"')
        else:
            lines.append(f"  {k} = {v}")
    if not c["consts"]:
        lines.pop()
    if c.get("inv"):
        lines.append("INVARIANTS " + " ".join(c["inv"]))
    if c.get("prop"):
        lines.append("PROPERTIES " + " ".join(c["prop"]))
    for e in c.get("extra", []):
        lines.append(e)
    lines.append("CHECK_DEADLOCK FALSE")
    with open(path, "w") as f:
        f.write("\n".join(lines) + "\n")


def tlc(args, work, name, module, cfg, out, timeout, heap="3g", env=None):
    meta = os.path.join(work, "meta_" + name)
    shutil.rmtree(meta, ignore_errors=True)
    os.makedirs(meta)
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + heap, "-Xss64m",
           "-Djava.io.tmpdir=" + meta, "-cp", CP, "tlc2.TLC"] + args + ["-metadir", meta, "-noGenerateSpecTE", "-config", cfg, module + ".tla"]
    e = dict(os.environ)
    e.update(env or {})
    r = sh(cmd, timeout, cwd=SPEC, out=out, env=e)
    shutil.rmtree(meta, ignore_errors=True)
    return r.returncode


STATS = re.compile(r"The number of states generated: (\d+)|^(\d+) states generated, (\d+) distinct")


def tlc_stats(out):
    gen = dist = 0
    err = None
    with open(out, errors="replace") as f:
        for l in f:
            if l.startswith('"['):
                continue
            m = STATS.search(l)
            if m:
                if m.group(1):
                    gen = dist = int(m.group(1))
                else:
                    gen, dist = int(m.group(2)), int(m.group(3))
            if l.startswith("Error:") and err is None:
                err = l.strip()
    return gen, dist, err


class Check:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.work = os.path.join(ROOT, "out", pid)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.states = self.transitions = self.traces = self.steps = 0
        self.samples, self.notes, self.violations = [], [], []

    def violation(self, payload, why):
        d = os.path.join(ROOT, "out", "replays")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, f"{self.pid}-{len(self.violations)}.json")
        with open(p, "w") as f:
            json.dump(payload, f)
        self.violations.append((p, why))

    # -- stages ------------------------------------------------------------
    def generate(self, st, name):
        """Run TLC (simulation or exhaustive tree); returns output files with behaviours."""
        mult = st.get("thorough", 8) if self.tier == "thorough" else 1
        cfg = os.path.join(self.work, name + ".cfg")
        c = dict(CFG[st["cfg"]])
        c["consts"] = dict(c["consts"])
        c["consts"].update(st.get("consts", {}))
        if self.tier == "thorough":
            c["consts"].update(st.get("consts_thorough", {}))
        write_cfg(cfg, c)
        outs = []
        if st["kind"] == "sim":
            procs = st.get("procs", 4)
            num = max(1, st["num"] * mult // procs)
            depth = c["consts"]["Depth"] + 1

            def one(k):
                out = os.path.join(self.work, f"{name}.{k}.out")
                s = self.seed * 1000 + k + 17 * (sum(map(ord, name)) % 50)
                rc = tlc(["-simulate", f"num={num}", "-depth", str(depth), "-seed", str(s), "-workers", "1"],
                         self.work, f"{name}.{k}", c["module"], cfg, out, st.get("timeout", 600) * (4 if mult > 1 else 1))
                return out, rc
            with cf.ThreadPoolExecutor(procs) as ex:
                res = list(ex.map(one, range(procs)))
        else:
            out = os.path.join(self.work, f"{name}.out")
            rc = tlc(["-workers", "6"], self.work, name, c["module"], cfg, out, st.get("timeout", 600) * (4 if mult > 1 else 1), heap="8g")
            res = [(out, rc)]
        for out, rc in res:
            gen, dist, err = tlc_stats(out)
            if err or rc != 0 or gen == 0:
                with open(out, errors="replace") as f:
                    tail = [l for l in f if not l.startswith('"[')][-30:]
                log("".join(tail))
                raise ToolError(f"TLC failed on {name}: rc={rc} {err}")
            self.states += dist
            self.transitions += gen
            outs.append(out)
        return outs

    def replay(self, st, name, outs):
        rep = os.path.join(self.work, name + ".report.json")
        cmd = [FDH, "replay", st["sys"], "--in", ",".join(outs), "--flags", st.get("flags", ""),
               "--variants", str(st.get("variants", 3) * (2 if self.tier == "thorough" else 1)),
               "--seed", str(self.seed), "--report", rep]
        self.run_harness(cmd, rep, st, name)
        for o in outs:
            os.remove(o)

    def run_harness(self, cmd, rep, st, name):
        r = sh(cmd, st.get("hangcap", 600) * (3 if self.tier == "thorough" else 1))
        if r.returncode in (0, 1) and os.path.exists(rep):
            j = json.load(open(rep))
            self.traces += j["runs"]
            self.steps += j["steps"]
            if j.get("sample"):
                self.samples.append({"stage": name, "behaviour_prefix": j["sample"]})
            for f in j["failures"][:1]:
                self.violation(f, f"{name}: step {f.get('step')}: {f.get('message')}")
            self.notes.append(f"{name}: {j['behaviours']} behaviours, {j['runs']} replays, {j['steps']} steps")
        elif r.returncode < 0 or r.returncode in (134, 139):
            # the code under test brought the process down (stack overflow, abort, bad access)
            self.violation({"cmd": cmd, "rc": r.returncode, "output": r.stdout[-2000:]}, f"{name}: process died with {r.returncode}")
        else:
            log(r.stdout[-3000:])
            raise ToolError(f"harness failed on {name}: rc={r.returncode}")

    def validate(self, st, name):
        """Record traces from the real code, then let TLC decide whether the specification explains them."""
        mult = st.get("thorough", 6) if self.tier == "thorough" else 1
        procs = st.get("procs", 4)

        def rec(k):
            tr = os.path.join(self.work, f"{name}.{k}.ndjson")
            cmd = [FDH, "record", st["sys"], "--out", tr, "--num", str(max(1, st["num"] * mult // procs)),
                   "--seed", str(self.seed * 1000 + k), "--flags", st.get("flags", "")]
            r = sh(cmd, 600)
            return tr, r
        with cf.ThreadPoolExecutor(procs) as ex:
            recs = list(ex.map(rec, range(procs)))
        good = []
        for tr, r in recs:
            if r.returncode < 0 or r.returncode in (134, 139):
                self.violation({"rc": r.returncode, "output": r.stdout[-2000:]}, f"{name}: process died with {r.returncode}")
            elif r.returncode != 0:
                log(r.stdout[-3000:])
                raise ToolError(f"record failed on {name}")
            else:
                good.append(tr)
        c = CFG[st["cfg"]]
        cfg = os.path.join(self.work, name + ".cfg")
        write_cfg(cfg, c)

        def val(tr):
            out = tr + ".out"
            rc = tlc(["-workers", "1"], self.work, os.path.basename(tr), c["module"], cfg, out, 800 * mult,
                     env={"TRACE": tr})
            return tr, out, rc
        with cf.ThreadPoolExecutor(procs) as ex:
            vals = list(ex.map(val, good))
        for tr, out, rc in vals:
            gen, dist, err = tlc_stats(out)
            text = open(out, errors="replace").read()
            n = sum(1 for _ in open(tr))
            m = re.search(r"TRACE-REJECTED at line (\d+)", text)
            if m or "Invariant" in text and "is violated" in text:
                at = int(m.group(1)) if m else -1
                lines = open(tr).read().splitlines()
                iv = re.search(r"Invariant (\w+) is violated", text)
                why = f"{name}: specification rejects recorded trace at line {at}" if m else f"{name}: invariant {iv.group(1) if iv else '?'} violated by recorded trace"
                self.violation({"system": st["sys"], "trace": lines[max(0, at - 40):at + 1] if at >= 0 else lines[:200], "at": at, "tlc": text[-3000:]}, why + (": " + lines[at - 1][:300] if 0 < at <= len(lines) else ""))
            elif err or rc != 0 or gen == 0:
                log(text[-3000:])
                raise ToolError(f"TLC failed on {name}: rc={rc} {err}")
            self.states += dist
            self.transitions += gen
            self.steps += n
            self.traces += sum(1 for l in open(tr) if '"a":"init"' in l or '"a": "init"' in l) or 1
            if len(self.samples) < 8:
                self.samples.append({"stage": name, "recorded": [json.loads(l) for l in open(tr).read().splitlines()[:4]]})
            os.remove(out)
            os.remove(tr)
        self.notes.append(f"{name}: {procs} recorded traces validated")

    def known(self, st, name):
        """Replays the history of a recorded finding; silent once the code is repaired."""
        rep = os.path.join(self.work, name + ".json")
        r = sh([FDH, "replay", st["sys"], "--in", os.path.join(SPEC, st["file"]), "--variants", "1", "--report", rep], 200)
        if r.returncode == 1:
            fails = json.load(open(rep))["failures"]
            line = f"known: property={self.pid} {st['text']}"
            if line in open(os.path.join(ROOT, "known_findings.txt")).read().splitlines():
                log(f"KNOWN-FINDING: property={self.pid} {st['text']}")
            else:
                self.violation(fails[0], fails[0]["message"])
        elif r.returncode != 0:
            raise ToolError(f"{name}: {r.stdout}")
        self.notes.append(f"{name}: history of a recorded finding replayed")

    def run(self):
        t0 = time.time()
        build(self.pid)
        tb = time.time() - t0
        stages = PLAN[self.pid]["stages"]
        for i, st in enumerate(stages):
            if st.get("tier") == "thorough" and self.tier != "thorough":
                continue
            name = st.get("name", f"{st['kind']}{i}")
            t1 = time.time()
            if st["kind"] in ("sim", "tree"):
                outs = self.generate(st, name)
                if st.get("sys"):
                    self.replay(st, name, outs)
                else:
                    for o in outs:
                        os.remove(o)
            elif st["kind"] == "mc":
                for o in self.generate(st, name):
                    os.remove(o)
            elif st["kind"] == "known":
                self.known(st, name)
            elif st["kind"] == "validate":
                self.validate(st, name)
            log(f"[{self.pid}] {name}: {time.time() - t1:.1f}s, states {self.states}, runs {self.traces}, steps {self.steps}")
            if self.violations:
                break
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
            "coverage": {"states": self.states, "transitions": self.transitions,
                         "traces_validated_against_impl": self.traces, "implementation_steps": self.steps,
                         "stages": self.notes, "samples": self.samples[:8]},
            "assumptions": PLAN[self.pid].get("assumptions", []),
            "wall_s": round(time.time() - t0, 2), "build_s": round(tb, 2), "violations": len(self.violations),
        }
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for p, why in self.violations:
            log(why)
            log(f"VIOLATION property={self.pid} replay={p}")
        return 1 if self.violations else 0


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        sys.exit(Check(pid, tier).run())
    except ToolError as e:
        log("ERROR", e)
        sys.exit(2)


if __name__ == "__main__":
    main()
