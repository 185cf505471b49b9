"""Runs TLC on the specifications and the harnesses on the real code, and compares the two.

A check is a Python function that is given a Context. It asks for
  model(...)    TLC explores a specification exhaustively: every transition is printed as an edge
                (state, operation, state), and the invariants of the model are checked on the way;
  conform(...)  operations are carried out by the real code (through a harness) and the trace that
                was recorded is validated by TLC against a trace specification.
Nothing in here decides whether a result is right: the specifications do.
"""
import concurrent.futures
import hashlib
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla"
TARGET = os.environ.get("VERIF_TARGET", os.path.join(VERIF, "target"))


class ToolError(Exception):
    pass


def cps(text):
    return [ord(c) for c in text]


def uncps(codes):
    return "".join(map(chr, codes))


def readable(value):
    """A value with its arrays of code points as text, for messages."""
    if isinstance(value, list):
        if value and all(isinstance(v, int) and not isinstance(v, bool) and 9 <= v < 0x110000 for v in value):
            return uncps(value)
        return [readable(v) for v in value]
    if isinstance(value, dict):
        return {k: readable(v) for k, v in value.items()}
    return value


def tlc_command(memory="3g"):
    jars = [os.path.join(JARS, j) for j in sorted(os.listdir(JARS)) if j.endswith(".jar")]
    return ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss64m", "-Xmx" + memory,
            "-cp", ":".join(jars), "tlc2.TLC"]


class Context:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == "quick"
        self.random = random.Random(f"{prop}/{seed}")
        self.started = time.time()
        self.states = self.transitions = self.traces = self.events = 0
        self.samples = []
        self.notes = []
        self.violations = []
        self.known = []
        self.work = tempfile.mkdtemp(prefix=f"verif-{prop}-")
        self.findings = load_findings(prop)

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)

    # ----------------------------------------------------------------- specifications

    def model(self, module, cfg=None, env=None, memory="6g", timeout=800):
        """Explore a model; returns its edges as (state key, operation, state key)."""
        cfg = cfg or module + ".cfg"
        edges = os.path.join(self.work, f"{module}-{len(os.listdir(self.work))}.edges")
        meta = tempfile.mkdtemp(dir=self.work)
        full = dict(os.environ, EDGES=edges, **(env or {}))
        cmd = tlc_command(memory) + ["-workers", "8", "-metadir", meta, "-noGenerateSpecTE",
                                     "-nowarning", "-lncheck", "final", "-config", cfg, module + ".tla"]
        run = subprocess.run(cmd, cwd=SPEC, env=full, capture_output=True, text=True, timeout=timeout)
        out = run.stdout
        generated = distinct = None
        for line in out.splitlines():
            if "states generated," in line and "distinct states found" in line and not line.startswith("Progress"):
                words = line.replace(",", "").split()
                generated, distinct = int(words[0]), int(words[3])
        if run.returncode != 0 or "No error has been found" not in out or generated is None:
            # A model that violates its own invariants does not describe the design it should.
            raise ToolError(f"{module} ({cfg}): TLC exit {run.returncode}\n{out[-6000:]}\n{run.stderr[-2000:]}")
        self.states += distinct
        self.transitions += generated
        result = []
        if os.path.exists(edges):
            with open(edges, encoding="utf-8") as f:
                for line in f:
                    line = line.strip()
                    if not line:
                        continue
                    value = json.loads(json.loads(line))
                    if len(value) == 1:
                        result.append((None, value[0], None))
                    else:
                        result.append((json.dumps(value[0]), value[1], json.dumps(value[2])))
            os.unlink(edges)
        shutil.rmtree(meta, ignore_errors=True)
        self.samples.append(f"{module} ({cfg}): {distinct} states, {generated} transitions explored by TLC")
        return result

    # ----------------------------------------------------------------- the real code

    def build(self, crate):
        source = os.path.join(VERIF, "harness", crate)
        env = dict(os.environ, CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE="true")
        run = subprocess.run(["cargo", "build", "--offline", "-q"], cwd=source, env=env,
                             capture_output=True, text=True)
        if run.returncode != 0:
            raise ToolError(f"building the harness {crate}: {run.stderr[-6000:]}")
        return os.path.join(TARGET, "debug", "harness_" + crate)

    def drive(self, binary, ops, timeout):
        """Carry out ops; returns one event for each."""
        events = []
        restarts = 0
        while len(events) < len(ops):
            path = os.path.join(self.work, f"ops-{os.getpid()}-{len(events)}-{id(ops)}")
            with open(path, "w") as f:
                for op in ops[len(events):]:
                    f.write(json.dumps(op) + "\n")
            scratch = tempfile.mkdtemp(dir=self.work)
            try:
                run = subprocess.run([binary, path], capture_output=True, timeout=timeout, cwd=scratch)
                out, code, why = run.stdout, run.returncode, None
                if code == 3:
                    raise ToolError(f"harness: {run.stderr.decode(errors='replace')[-3000:]}")
                if code != 0:
                    why = f"the process ended with {code}: {run.stderr.decode(errors='replace')[-300:]}"
            except subprocess.TimeoutExpired as e:
                out, why = e.stdout or b"", f"no answer in {timeout} s"
            finally:
                os.unlink(path)
                shutil.rmtree(scratch, ignore_errors=True)
            lines = out.decode("utf-8").split("\n")
            tail = lines.pop()
            for line in lines:
                if line:
                    events.append(json.loads(line))
            if why is None:
                if len(events) != len(ops):
                    raise ToolError(f"harness: {len(events)} results of {len(ops)} operations")
                break
            # The operation that has no result took the process with it.
            if len(events) < len(ops):
                events.append(dict(ops[len(events)], st="panic", res=["panic", why], obs=[]))
            while len(events) < len(ops) and ops[len(events)]["op"] != "reset":
                events.append(dict(ops[len(events)], st="skipped", res=["skipped"], obs=[]))
            restarts += 1
            if restarts > 4:
                while len(events) < len(ops):
                    events.append(dict(ops[len(events)], st="skipped", res=["skipped"], obs=[]))
        return events

    # ----------------------------------------------------------------- conformance

    def conform(self, crate, module, ops, label, chunk=None, timeout=240, tlc_timeout=700, parallel=8,
                batch=None):
        """Run ops on the real code and have TLC validate the recorded trace."""
        if not ops:
            raise ToolError(f"{label}: no operations")
        binary = self.build(crate)
        if ops[0]["op"] != "reset":
            ops = [{"op": "reset"}] + ops
        runs = split_at_resets(ops, batch or len(ops))
        events = []
        with concurrent.futures.ThreadPoolExecutor(8) as pool:
            for part in pool.map(lambda r: self.drive(binary, r, timeout), runs):
                events += part
        behaviours = sum(1 for e in events if e["op"] == "reset")
        chunks = split_at_resets(events, chunk or max(200, len(events) // parallel + 1))
        mismatches = []
        with concurrent.futures.ThreadPoolExecutor(parallel) as pool:
            for part in pool.map(lambda c: self.validate(module, c, tlc_timeout), chunks):
                mismatches += part
        self.traces += behaviours
        self.events += len(events)
        accepted = 0
        for history, event, want in mismatches:
            self.report(crate, module, history, event, want)
        accepted = len(events) - len(mismatches)
        self.samples.append(f"{label}: {len(events)} events of {behaviours} behaviours of the real code "
                            f"validated against {module}, {len(mismatches)} rejected")
        shown = [e for e in events if e["op"] != "reset" and len(json.dumps(e)) < 600]
        for e in self.random.sample(shown, min(2, len(shown))):
            self.samples.append(json.dumps(readable({k: v for k, v in e.items() if k != "obs"}), ensure_ascii=True))
        return events, accepted

    def validate(self, module, events, timeout):
        fd, path = tempfile.mkstemp(dir=self.work, suffix=".trace")
        with os.fdopen(fd, "w") as f:
            for e in events:
                f.write(json.dumps(e) + "\n")
        meta = tempfile.mkdtemp(dir=self.work)
        cmd = tlc_command("2500m") + ["-workers", "1", "-metadir", meta, "-noGenerateSpecTE", "-nowarning",
                                      "-lncheck", "final", "-config", "Trace.cfg", module + ".tla"]
        run = subprocess.run(cmd, cwd=SPEC, env=dict(os.environ, TRACE=path), capture_output=True, text=True,
                             timeout=timeout)
        out = run.stdout
        if run.returncode != 0 or "No error has been found" not in out:
            raise ToolError(f"{module}: TLC exit {run.returncode}\n{out[-5000:]}\n{run.stderr[-2000:]}")
        os.unlink(path)
        shutil.rmtree(meta, ignore_errors=True)
        result = []
        lines = out.splitlines()
        for n, line in enumerate(lines):
            line = line.strip().strip('"')
            if line.startswith("MISMATCH "):
                words = line.split(" ", 2)
                i = int(words[1]) - 1
                start = i
                while events[start]["op"] != "reset":
                    start -= 1
                result.append((events[start:i + 1], events[i], words[2] if len(words) > 2 else ""))
        return result

    def report(self, crate, module, history, event, want):
        op = {k: v for k, v in event.items() if k not in ("st", "res", "obs")}
        for finding in self.findings:
            if finding["op"] == op and finding["res"] == event["res"]:
                if finding not in self.known:
                    self.known.append(finding)
                return
        self.violations.append({"harness": crate, "specification": module, "operation": readable(op),
                                "result": readable(event["res"]), "state": readable(event["obs"]),
                                "expected": want, "history": history})

    def fail(self, what, **details):
        self.violations.append(dict(details, what=what))

    # ----------------------------------------------------------------- the verdict

    def finish(self, assumptions):
        evidence = os.path.join(VERIF, "evidence")
        os.makedirs(evidence, exist_ok=True)
        # A finding is reported only with the input that it is listed for.
        for f in self.known:
            print(f"KNOWN-FINDING: property={self.prop} {f['what']}")
        record = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
            "coverage": {"states": self.states, "transitions": self.transitions,
                         "traces_validated_against_impl": self.traces,
                         "events_validated_against_impl": self.events,
                         "samples": self.samples[:40]},
            "wall_s": round(time.time() - self.started, 2),
            "assumptions": assumptions,
            "violations": len(self.violations),
        }
        with open(os.path.join(evidence, f"{self.prop}.json"), "w") as f:
            json.dump(record, f, indent=1)
            f.write("\n")
        if not self.violations:
            print(f"{self.prop}: held on {self.states} states of the models and {self.events} events "
                  f"({self.traces} behaviours) of the real code, {record['wall_s']} s")
            return 0
        folder = os.path.join(evidence, "replay")
        os.makedirs(folder, exist_ok=True)
        for n, v in enumerate(self.violations[:5]):
            path = os.path.join(folder, f"{self.prop}-{n}.json")
            with open(path, "w") as f:
                json.dump(v, f, indent=1)
                f.write("\n")
            print(f"VIOLATION property={self.prop} replay={path}")
            for key in ("what", "operation", "result", "expected"):
                if key in v:
                    print(f"  {key}: {str(v[key])[:600]}")
        if len(self.violations) > 5:
            print(f"  and {len(self.violations) - 5} more")
        return 1


def load_findings(prop):
    path = os.path.join(VERIF, "known-findings.txt")
    result = []
    if os.path.exists(path):
        with open(path, encoding="utf-8") as f:
            for line in f:
                line = line.strip()
                if line.startswith("{"):
                    finding = json.loads(line)
                    if finding["property"] == prop:
                        result.append(finding)
    return result


def split_at_resets(events, size):
    """Consecutive parts of about `size` events, each of which starts with a reset."""
    parts, part = [], []
    for e in events:
        if e["op"] == "reset" and len(part) >= size:
            parts.append(part)
            part = []
        part.append(e)
    if part:
        parts.append(part)
    return parts


def behaviours(ops, length):
    """Operations that do not depend on each other, with a reset now and then: an operation that is
    not conformant ends the validation of the behaviour that it is in."""
    result = []
    for i, op in enumerate(ops):
        if i % length == 0:
            result.append({"op": "reset"})
        result.append(op)
    return result


def tours(edges, limit=60, reset=None):
    """Behaviours that together take every edge: from the initial state to the source of an edge
    that was not taken yet, and on over such edges for as long as there is one."""
    reset = reset or {"op": "reset"}
    out = {}
    for i, (s, o, t) in enumerate(edges):
        out.setdefault(s, []).append(i)
    root = edges[0][0]
    targets = {t for _, _, t in edges}
    # Breadth first, for the shortest path to every state.
    parent, queue = {root: None}, [root]
    for s in queue:
        for i in out.get(s, []):
            t = edges[i][2]
            if t not in parent:
                parent[t] = (s, i)
                queue.append(t)
    missing = [s for s in out if s not in parent]
    if missing:
        raise ToolError(f"tours: {len(missing)} states are not reachable from the first")
    pending = {s: list(reversed(es)) for s, es in out.items()}
    ops = []
    for start in queue:
        while pending.get(start):
            path, s = [], start
            while parent[s] is not None:
                s, i = parent[s]
                path.append(i)
            ops.append(dict(reset))
            ops += [edges[i][1] for i in reversed(path)]
            s, n = start, 0
            while pending.get(s) and n < limit:
                i = pending[s].pop()
                ops.append(edges[i][1])
                s = edges[i][2]
                n += 1
    return ops
