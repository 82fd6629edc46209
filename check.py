#!/usr/bin/env python3
"""Decide one property of cbored: check.py ID [quick|thorough]

Every check is made of stages of two kinds:
  mc      a TLC run of a specification module: its invariants over all reachable states, and the
          sessions (calls and inputs) it prints on the way; these are run on the real crate, and what
          the crate did is checked by TLC against the trace specification of that kind of session
  record  sessions made by the harness from the seed, run on the real crate, checked the same way

Exit 0: held on everything explored.  1: VIOLATION line.  2: the check itself failed.
"""
import json, os, re, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(HERE, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
TRACE_OF = {"reader": "TraceReader", "validator": "TraceValidator", "acceptor": "TraceAcceptor",
            "writer": "TraceWriter", "feeder": "TraceFeeder", "pair": "TracePair", "typed": "TraceTyped",
            "total": "TraceTotal"}
CHUNK = 25000
RECORD_CHUNK = 20000
sys.path.insert(0, os.path.join(HERE, "tools"))
import stages as ST


class Broken(Exception):
    """the check itself does not work"""


class Violation(Exception):
    def __init__(self, what, replay):
        self.what, self.replay = what, replay


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.work = os.path.join(HERE, "work", prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(os.path.join(self.work, "tmp"))
        self.lock = threading.Lock()
        self.states = self.transitions = self.sessions = self.events = self.design_states = 0
        self.notes, self.samples, self.violations = [], [], []
        self.bins, self.schema = {}, {}

    # ------------------------------------------------------------------ building
    def build(self, crate="harness", features=()):
        env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(HERE, "target"), CARGO_NET_OFFLINE="true")
        env.pop("RUSTFLAGS", None)
        cmd = ["cargo", "build", "--offline", "--quiet", "--manifest-path", os.path.join(HERE, crate, "Cargo.toml")]
        if features:
            cmd += ["--features", ",".join(features)]
        return sh(cmd, env=env)

    # ------------------------------------------------------------------ TLC
    def tlc(self, name, module, cfg, env, out, workers=4, timeout=800, heap="6g"):
        tmp = os.path.join(self.work, "tmp", name)
        os.makedirs(tmp, exist_ok=True)
        e = dict(os.environ, SCHEMA="", EMIT="0", WRAP="0", MODE="", K="0", TRACE="", LEVEL="value",
                 PART="0", PARTS="1")
        e.update({k: str(v) for k, v in env.items()})
        cmd = ["java", "-XX:+UseParallelGC", "-Xss128m", "-Xmx" + heap, "-Djava.io.tmpdir=" + tmp, "-cp", JARS,
               "tlc2.TLC", "-noGenerateSpecTE", "-workers", str(workers), "-metadir", os.path.join(tmp, "meta"),
               "-config", cfg, module + ".tla"]
        with open(out, "w") as f:
            try:
                rc = subprocess.run(cmd, cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout).returncode
            except subprocess.TimeoutExpired:
                raise Broken("TLC on %s did not finish in %d s" % (name, timeout))
        shutil.rmtree(tmp, ignore_errors=True)
        return rc

    @staticmethod
    def tlc_numbers(path):
        gen = dist = init = None
        with open(path, errors="replace") as f:
            for l in f:
                m = re.match(r"^(\d+) states generated, (\d+) distinct states found, 0 states left", l)
                if m:
                    gen, dist = int(m.group(1)), int(m.group(2))
                m = re.match(r"^Finished computing initial states: (\d+) ", l)
                if m:
                    init = int(m.group(1))
        return gen, dist, init or 0

    def tail(self, path, n=25):
        with open(path, errors="replace") as f:
            keep = [l[:300] for l in f if not l.startswith('"SESSION') and not l.startswith('"MISMATCH')]
        return "".join(keep[-n:])

    # ------------------------------------------------------------------ stages
    def mc(self, st):
        """a model checking run; the sessions it prints are replayed"""
        name = st["name"]
        out = os.path.join(self.work, name + ".tlc")
        env = dict(st["env"], SCHEMA=self.schema.get(st.get("bin", "harness"), ""))
        if st.get("emit", True):
            env["EMIT"] = "1"
        rc = self.tlc(name, st["module"], st.get("cfg", st["module"] + ".cfg"), env, out,
                      workers=st.get("workers", 4), timeout=st.get("timeout", 800))
        gen, dist, init = self.tlc_numbers(out)
        if rc != 0 or dist is None:
            raise Broken("TLC on %s: exit %d\n%s" % (name, rc, self.tail(out)))
        with self.lock:
            self.states += dist
            self.design_states += dist
            self.transitions += gen - init
        by = {}
        seen = set()
        with open(out, errors="replace") as f:
            for l in f:
                if l.startswith('"SESSION '):
                    s = json.loads(l)[8:]
                    if s in seen:
                        continue
                    seen.add(s)
                    by.setdefault(re.search(r'"k":"(\w+)"', s).group(1), []).append(s)
        os.remove(out)
        n = sum(len(v) for v in by.values())
        self.note("%s: %d states, %d sessions printed" % (name, dist, n))
        if st.get("emit", True) and n < st.get("least", 1):
            raise Broken("%s printed %d sessions" % (name, n))
        for k, v in sorted(by.items()):
            for c in range(0, len(v), CHUNK):
                base = os.path.join(self.work, "%s-%s-%d" % (name, k, c // CHUNK))
                with open(base + ".ses", "w") as f:
                    f.write("\n".join(v[c:c + CHUNK]) + "\n")
                self.harness(st, ["replay", base + ".ses", base + ".ndj"], base + ".ndj")
                os.remove(base + ".ses")
                self.trace(st, k, base + ".ndj")

    def record(self, st):
        total, i = st["count"], 0
        while total > 0:
            n = min(total, RECORD_CHUNK)
            out = os.path.join(self.work, "%s-%d.ndj" % (st["name"], i))
            self.harness(st, ["record", st["profile"], str(self.seed * 1000 + i), str(n), out], out)
            self.trace(st, st["kind"], out)
            total -= n
            i += 1

    def harness(self, st, args, out):
        exe = self.bins[st.get("bin", "harness")]
        r = sh([exe] + args, timeout=800)
        if r.returncode == 0:
            return
        cur = out + ".cur"
        if r.returncode in (2, 3) or not os.path.exists(cur):
            raise Broken("harness %s: exit %d\n%s" % (" ".join(args), r.returncode, r.stdout[-2000:]))
        if r.returncode == 98:
            what = "no value can be made, the crate refuses or panics on all of them"
        elif r.returncode == 97:
            what = "a call does not return"
        else:
            what = "the process died (exit %d)" % r.returncode
        with open(cur) as f:
            plan = json.loads(f.read() or "{}")
        self.violation(st, {"what": what, "output": r.stdout[-2000:], "session": plan})

    def trace(self, st, kind, path):
        """check recorded sessions against the trace specification"""
        name = os.path.basename(path)[:-4]
        out = os.path.join(self.work, name + ".tlc")
        rc = self.tlc(name, TRACE_OF[kind], "Trace.cfg",
                      {"TRACE": path, "LEVEL": st.get("level", "value"), "SCHEMA": self.schema.get(st.get("bin", "harness"), "")},
                      out, workers=st.get("workers", 4))
        gen, dist, init = self.tlc_numbers(out)
        bad = []
        with open(out, errors="replace") as f:
            for l in f:
                if l.startswith('"MISMATCH '):
                    try:
                        bad.append(json.loads(json.loads(l)[9:]))
                    except ValueError:
                        bad.append({"i": 1, "j": 1, "want": l[:2000]})
        lines = n_ev = 0
        with open(path) as f:
            for l in f:
                lines += 1
                n_ev += l.count('"f":"')
        if bad:
            with open(path) as f:
                log = f.read().split("\n")
            for b in bad[:20]:
                s = json.loads(log[b["i"] - 1])
                j = min(b["j"], len(s["ev"]))
                self.violation(st, {"what": "the specification does not allow event %d" % j, "event": s["ev"][j - 1],
                                    "specified": b["want"], "session": s})
            if rc == 0 or dist is not None:
                return
        if rc != 0 or dist is None:
            if bad:
                return
            raise Broken("TLC on trace %s: exit %d\n%s" % (name, rc, self.tail(out)))
        if init != lines or dist != lines + n_ev:
            raise Broken("trace %s: %d sessions and %d events, but %d initial and %d states" % (name, lines, n_ev, init, dist))
        with self.lock:
            self.states += dist
            self.transitions += gen - init
            self.sessions += lines
            self.events += n_ev
            if len(self.samples) < 6:
                with open(path) as f:
                    l = f.readline()
                if len(l) < 3000:
                    self.samples.append({"stage": st["name"], "session": json.loads(l)})
        os.remove(out)
        os.remove(path)

    def violation(self, st, what):
        with self.lock:
            n = len(self.violations) + 1
            path = os.path.join(self.work, "violation-%d.json" % n)
            what = dict(property=self.prop, stage=st["name"], **what)
            plan = what["session"]
            with open(path, "w") as f:
                json.dump(what, f, indent=1)
            # the session alone, for: target/debug/harness replay FILE OUT
            with open(os.path.join(self.work, "violation-%d.ses" % n), "w") as f:
                f.write(json.dumps(plan) + "\n")
            self.violations.append(path)

    def note(self, s):
        with self.lock:
            self.notes.append(s)

    def stage(self, st):
        t = time.time()
        (self.mc if st["do"] == "mc" else self.record)(st)
        self.note("%s: %.1f s" % (st["name"], time.time() - t))


def main():
    if len(sys.argv) < 2 or sys.argv[1] not in ST.STAGES:
        print("usage: check.py ID [quick|thorough]")
        return 2
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    run = Run(prop, tier, seed)
    st = ST.STAGES[prop](tier)
    for i, s in enumerate(st):
        s["name"] = "%02d-%s" % (i, s["name"])
    b = run.build()
    if b.returncode != 0:
        print("the harness does not build against /repo:\n" + b.stdout[-4000:])
        return 2
    run.bins["harness"] = os.path.join(HERE, "target", "debug", "harness")
    for d in sorted({s["bin"] for s in st if s.get("bin", "harness") != "harness"}):
        import schemas
        b = schemas.build(run, d, tier)
        if b is not None:
            # the harness for the fixed types builds, so what does not is derived code
            path = os.path.join(run.work, "violation-build.txt")
            with open(path, "w") as f:
                f.write(b)
            run.violations.append(path)
            st = [s for s in st if s.get("bin", "harness") != d]
            print(b[-2000:])
    broken = []
    with ThreadPoolExecutor(max_workers=3) as ex:
        fs = [(s, ex.submit(run.stage, s)) for s in st]
        for s, f in fs:
            try:
                f.result()
            except Exception as e:
                broken.append("%s: %s: %s" % (s["name"], type(e).__name__, e))
    wall = time.time() - t0
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": run.states, "transitions": run.transitions,
                       "traces_validated_against_impl": run.sessions,
                       "impl_calls_validated": run.events,
                       "model_states_explored_without_traces": run.design_states,
                       "stages": [{k: v for k, v in s.items() if k in ("name", "do", "module", "env", "profile", "count", "level")}
                                  for s in st],
                       "notes": run.notes, "samples": run.samples},
          "assumptions": ST.ASSUMPTIONS,
          "wall_s": round(wall, 2), "violations": len(run.violations)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for n in run.notes:
        print(n)
    print("%s %s: %d states, %d sessions (%d calls) of the real crate checked, %.1f s" %
          (prop, tier, run.states, run.sessions, run.events, wall))
    if run.violations:
        for v in run.violations[:3]:
            if v.endswith(".json"):
                with open(v) as f:
                    x = json.load(f)
                print(json.dumps({k: x[k] for k in x if k in ("stage", "what", "event", "specified", "output")})[:1500])
        print("VIOLATION property=%s replay=%s" % (prop, run.violations[0]))
        for x in broken:
            print("also: " + x[:500])
        return 1
    if broken:
        print("THE CHECK FAILED:")
        for x in broken:
            print(x)
        return 2
    shutil.rmtree(os.path.join(run.work, "tmp"), ignore_errors=True)
    return 0


if __name__ == "__main__":
    sys.exit(main())
