"""Parent side: distributes seeds over simulation processes, reproduces and minimises what they find, writes the
replay file and the evidence.  Uses the standard library only and never imports the tree under test.

Exit status: 0 property held on everything explored, 1 violation (with a VIOLATION line), 3 harness error.
"""
import argparse
import atexit
import json
import os
import queue
import shutil
import signal
import socket
import subprocess
import sys
import tempfile
import threading
import time

from . import env

W = 8                      # number of simulation processes; fixed, so that the same seed means the same histories
OUT = os.path.join(env.VERIF, "out")


class Zygote:
    """The process the simulation processes are forked from; one per string hash seed."""
    all = {}
    lock = threading.Lock()
    tmp = None

    @classmethod
    def get(cls, hashseed):
        with cls.lock:
            if cls.tmp is None:
                cls.tmp = tempfile.mkdtemp(prefix="verif-run-")
                atexit.register(shutil.rmtree, cls.tmp, ignore_errors=True)
            z = cls.all.get(hashseed)
            if z is None or z.p.poll() is not None:
                z = cls.all[hashseed] = cls(hashseed)
        with z.mutex:
            if not z.ready:
                z.ready = bool(z.s.recv(1 << 16))
        return z

    def __init__(self, hashseed):
        self.s, theirs = socket.socketpair(socket.AF_UNIX, socket.SOCK_SEQPACKET)
        self.p = subprocess.Popen([env.PYTHON, "-m", "sim.zygote", str(theirs.fileno())], cwd=env.VERIF,
                                  env=env.child_env({"TMPDIR": self.tmp}, hashseed), stdin=subprocess.DEVNULL,
                                  stdout=subprocess.DEVNULL, stderr=None if os.environ.get("VERIF_DEBUG") else
                                  subprocess.DEVNULL, pass_fds=[theirs.fileno()])
        theirs.close()
        self.ready = False
        self.mutex = threading.Lock()

    def ask(self, m, fds=()):
        with self.mutex:
            socket.send_fds(self.s, [json.dumps(m).encode()], list(fds))
            r = self.s.recv(1 << 16)
        if not r:
            raise HarnessError("the process that makes simulation processes died")
        return json.loads(r)


class Worker:
    def __init__(self, name, hashseed="0", extra=None):
        self.z = Zygote.get(hashseed)
        self.err = tempfile.TemporaryFile()
        r, w = os.pipe()
        i, o = os.pipe()
        try:
            m = self.z.ask({"name": name, "env": extra or {}},
                           [i, w, 2 if os.environ.get("VERIF_DEBUG") else self.err.fileno()])
        finally:
            os.close(w)
            os.close(i)
        self.pid = m["pid"]
        self.status = None
        self.stdin = os.fdopen(o, "w")
        self.r = os.fdopen(r)
        self.q = queue.Queue()
        self.n = 0
        threading.Thread(target=self._read, daemon=True).start()

    def _read(self):
        try:
            for line in self.r:
                self.q.put(json.loads(line))
        except ValueError:
            pass
        self.q.put(None)

    def wait(self):
        if self.pid is not None:
            self.status = self.z.ask({"wait": self.pid})["status"]
            self.pid = None
        return self.status

    def recv(self, timeout):
        try:
            m = self.q.get(timeout=max(0.1, timeout))
        except queue.Empty:
            return {"error": "hang"}
        if m is None:
            self.kill()
            try:
                self.err.seek(0)
                tail = self.err.read()[-1500:].decode(errors="replace")
            except Exception:
                tail = ""
            return {"error": "died", "status": self.wait(), "tail": tail}
        return m

    def send(self, m):
        self.n += 1
        m["id"] = self.n
        try:
            self.stdin.write(json.dumps(m) + "\n")
            self.stdin.flush()
        except (BrokenPipeError, OSError):
            pass

    def ask(self, m, timeout):
        self.send(m)
        return self.recv(timeout)

    def kill(self):
        try:
            if self.pid is not None:     # not waited for yet, so the number is still this process
                os.kill(self.pid, signal.SIGKILL)
        except OSError:
            pass

    def close(self):
        self.kill()
        self.wait()
        for f in (self.stdin, self.err):
            try:
                f.close()
            except Exception:
                pass


class HarnessError(Exception):
    pass


def start(name, extra=None, hashseed="0", timeout=420):
    w = Worker(name, hashseed, extra)
    m = w.recv(timeout)
    if not m.get("ready"):
        w.close()
        raise HarnessError("simulation process did not start: %s" % json.dumps(m)[:3000])
    w.setup_s = m["t"]
    return w


def run_scenarios(name, scenarios, limit, extra=None, hashseed="0"):
    """Fresh process, the given scenarios in order.  Returns the list of replies (stops at error)."""
    w = start(name, extra, hashseed)
    out = []
    try:
        for sc in scenarios:
            m = w.ask({"op": "exec", "scenario": sc}, limit)
            out.append(m)
            if "error" in m:
                break
    finally:
        w.close()
    return out


def vclass(m, spec):
    """Class of violation of a reply, or None."""
    if "error" in m:
        if m["error"] == "hang":
            return "hang"
        if m["error"] == "died":
            return "process died"
        return None
    v = m["result"]["violation"]
    return v["class"] if v else None


class Spec:
    """What the parent needs to know about a check (checks/specs.py)."""

    def __init__(self, prop, module, quick_runs, thorough_runs, rule, level_note, assumptions, real, stub,
                 run_limit=120, quick_cap=330, thorough_cap=820, refs=None, technique="", interleaving_measure="",
                 shrink_budget=60, hashseeds=("0",)):
        self.__dict__.update(locals())


def load_known(prop):
    path = os.path.join(env.VERIF, "known_findings.jsonl")
    res = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line.startswith("{"):
                    e = json.loads(line)
                    if e.get("property") == prop and e.get("status") == "known":
                        res.append(e)
    return res


def known_match(known, reply):
    v = reply["result"]["violation"]
    for e in known:
        if e["class"] == v["class"] and all(s in v["detail"] for s in e["detail_contains"]):
            return e
    return None


def main(spec, argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("--replay")
    ap.add_argument("--runs", type=int)
    ap.add_argument("--cap", type=float)
    a = ap.parse_args(argv)
    t0 = time.time()
    try:
        if a.replay:
            return replay(spec, a.replay)
        return explore(spec, a, t0)
    except HarnessError as e:
        print("HARNESS ERROR %s: %s" % (spec.prop, e))
        return 3


def replay(spec, path):
    with open(path) as f:
        r = json.load(f)
    extra = {"VERIF_REFS": refs_file(spec)} if spec.refs else None
    out = run_scenarios(spec.module, r["scenarios"], spec.run_limit, extra, r.get("string_hash_seed", "0"))
    c = vclass(out[-1], spec)
    if c is None:
        if out[-1].get("error"):
            print(json.dumps(out[-1])[:3000])
            return 3
        print("replay of %s: no violation" % path)
        return 0
    detail = out[-1].get("result", {}).get("violation", {}).get("detail", "") if "result" in out[-1] else ""
    print("class: %s\ndetail: %s" % (c, detail))
    print("VIOLATION property=%s replay=%s" % (spec.prop, path))
    return 1


def refs_file(spec):
    """Reference results computed by fresh processes (one per entry group), see spec.refs."""
    path = os.path.join(tempfile.mkdtemp(prefix="verif-refs-"), "refs.json")
    res = {}
    lock = threading.Lock()
    errors = []

    slices = queue.SimpleQueue()
    for i in range(8 * W):
        slices.put(i)

    def work(_):
        try:
            w = start(spec.module, {"VERIF_REFONLY": "1"})
            try:
                while not errors:
                    try:
                        i = slices.get_nowait()
                    except queue.Empty:
                        break
                    m = w.ask({"op": "call", "fn": "make_refs", "args": [i, 8 * W]}, 400)
                    if "error" in m:
                        raise HarnessError("reference run failed: %s" % json.dumps(m)[:3000])
                    with lock:
                        res.update(m["value"])
            finally:
                w.close()
        except HarnessError as e:
            errors.append(str(e))
    ths = [threading.Thread(target=work, args=(i,)) for i in range(W)]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    if errors:
        raise HarnessError(errors[0])
    with open(path, "w") as f:
        json.dump(dict(sorted(res.items())), f)
    return path


def explore(spec, a, t0):
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    runs = a.runs or (spec.quick_runs if tier == "quick" else spec.thorough_runs)
    cap = a.cap or (spec.quick_cap if tier == "quick" else spec.thorough_cap)
    print("%s seed=%d tier=%s runs=%d repo=%s" % (spec.prop, seed, tier, runs, env.REPO))
    sys.stdout.flush()
    extra = {}
    if spec.refs:
        extra["VERIF_REFS"] = refs_file(spec)
    deadline = t0 + cap
    replies = [[] for _ in range(W)]
    errors = []
    setup_s = []
    known = load_known(spec.prop)
    known_hits = {}
    unreproduced = []
    violation = None
    todo = [iter(range(i, runs, W)) for i in range(W)]
    t_explore = 0

    def work(i, mine, stop):
        w = None
        try:
            w = start(spec.module, extra, spec.hashseeds[i % len(spec.hashseeds)])
            setup_s.append(w.setup_s)
            for k in todo[i]:
                m = w.ask({"op": "run", "seed": seed * 1000003 + k}, spec.run_limit)
                m["k"] = k
                mine.append(m)
                if m.get("error") == "harness":
                    errors.append("run %d: %s" % (k, m["trace"]))
                    stop.set()
                    break
                if m.get("error"):
                    stop.set()
                    break
                if m["result"]["violation"]:
                    e = known_match(known, m)
                    if e is not None:
                        known_hits[e["id"]] = e
                    else:
                        stop.set()
                        break
                if time.time() > deadline or stop.is_set():
                    break
        except HarnessError as e:
            errors.append(str(e))
            stop.set()
        finally:
            if w is not None:
                w.close()
    while True:
        t1 = time.time()
        new = [[] for _ in range(W)]
        stop = threading.Event()
        ths = [threading.Thread(target=work, args=(i, new[i], stop)) for i in range(W)]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        t_explore += time.time() - t1
        bad = []
        for i in range(W):
            replies[i].extend(new[i])
            for j, m in enumerate(new[i]):
                c = vclass(m, spec)
                if c and not (m.get("result") and known_match(known, m)):
                    bad.append((i, j, c))
        bad.sort(key=lambda b: new[b[0]][b[1]]["k"])
        for i, j, c in bad:
            if time.time() - t0 > 700:
                break
            violation = reproduce(spec, new[i], j, c, seed, extra, t0, spec.hashseeds[i % len(spec.hashseeds)])
            if violation:
                break
            unreproduced.append((new[i][j].get("k"), c))
        # a report that cannot be reproduced is none: the other runs go on
        if violation or errors or not bad or time.time() > deadline or not any(new):
            break
    if errors and not violation:
        raise HarnessError(errors[0])
    evidence(spec, tier, seed, replies, t_explore, t0, violation, unreproduced, setup_s, known_hits)
    for e in known_hits.values():
        print("KNOWN-FINDING: property=%s %s" % (spec.prop, e["what"]))
    for u in unreproduced:
        print("note: run %s reported '%s' but a fresh process did not reproduce it; not reported" % u)
    if extra.get("VERIF_REFS"):
        import shutil
        shutil.rmtree(os.path.dirname(extra["VERIF_REFS"]), ignore_errors=True)
    if violation:
        print("class: %s\ndetail: %s" % (violation["class"], violation["detail"]))
        print("VIOLATION property=%s replay=%s" % (spec.prop, violation["path"]))
        return 1
    done = sum(1 for r in replies for m in r if "result" in m)
    print("%s held on %d runs (%.0f s)" % (spec.prop, done, time.time() - t0))
    return 0


def reproduce(spec, hist, j, c, seed, extra, t0, hashseed):
    """Fresh process: the failing scenario alone, else with the history of its process; then minimise."""
    sc = hist[j].get("scenario")
    if sc is None:
        # the process hung or died: ask a fresh one for the scenario only
        w = start(spec.module, extra, hashseed)
        try:
            m = w.ask({"op": "call", "fn": "scenario_of", "args": [seed * 1000003 + hist[j]["k"]]}, spec.run_limit)
        finally:
            w.close()
        if "value" not in m:
            return None
        sc = m["value"]
    xs = dict(extra or {})

    def fails(scs):
        out = run_scenarios(spec.module, scs, spec.run_limit, xs, hashseed)
        if len(out) == len(scs) and vclass(out[-1], spec) == c:
            return out[-1]
        return None
    scs = [sc]
    m = fails(scs)
    if m is None:
        prefix = [h["scenario"] for h in hist[:j]]
        scs = prefix + [sc]
        m = fails(scs) if prefix else None
        if m is None:
            return None
        # minimise the history: keep the shortest suffix / subset that still fails
        n = 2
        while len(scs) > 1 and time.time() - t0 < 600:
            pre = scs[:-1]
            chunk = max(1, len(pre) // n)
            reduced = False
            for s in range(0, len(pre), chunk):
                cand = pre[:s] + pre[s + chunk:] + [sc]
                r = fails(cand)
                if r is not None:
                    scs, m, reduced = cand, r, True
                    break
                if time.time() - t0 > 600:
                    break
            if not reduced:
                if chunk == 1:
                    break
                n = min(n * 2, len(pre))
    # minimise the scenario itself
    budget = spec.shrink_budget
    tmin = time.time()
    w = start(spec.module, extra, hashseed)
    changed = len(scs) == 1
    try:
        while changed and budget > 0 and time.time() - t0 < 640 and time.time() - tmin < 120:
            changed = False
            cands = w.ask({"op": "shrink", "scenario": scs[-1]}, 60).get("candidates", [])
            for cand in cands:
                budget -= 1
                if budget < 0 or time.time() - tmin > 120:
                    break
                r = w.ask({"op": "exec", "scenario": cand}, spec.run_limit)
                if "error" in r:
                    w.close()
                    w = start(spec.module, extra, hashseed)
                    continue
                if vclass(r, spec) == c:
                    r2 = fails([cand])
                    if r2 is not None:
                        scs, m, changed = [cand], r2, True
                        break
    finally:
        w.close()
    os.makedirs(OUT, exist_ok=True)
    path = os.path.join(OUT, "%s-seed%d-run%d.json" % (spec.prop, seed, hist[j]["k"]))
    detail = m["result"]["violation"]["detail"] if "result" in m else json.dumps(m)[:1500]
    with open(path, "w") as f:
        json.dump({"property": spec.prop, "class": c, "detail": detail, "seed": seed, "run": hist[j]["k"],
                   "string_hash_seed": hashseed,
                   "scenarios": scs,
                   "how": "cd /verif && python3 checks/run.py %s --replay %s" % (spec.prop, path)}, f, indent=1)
    return {"class": c, "detail": detail, "path": path}


def evidence(spec, tier, seed, replies, t_explore, t0, violation, unreproduced, setup_s, known_hits):
    allm = [m for r in replies for m in r if "result" in m]
    faults, probes = {}, {}
    sigs = set()
    steps = simtime = 0
    for m in allm:
        r = m["result"]
        for k, v in r["faults"].items():
            faults[k] = faults.get(k, 0) + v
        for k, v in r["probes"].items():
            probes[k] = probes.get(k, 0) + v
        steps += r["steps"]
        simtime += r["simtime"]
        if r["nontrivial"] and r["sig"]:
            sigs.add(json.dumps(r["sig"], sort_keys=True))
    samples = []
    for m in sorted(allm, key=lambda m: m["k"])[:400]:
        if m["result"]["nontrivial"] and len(samples) < 4:
            samples.append({"scenario": m["scenario"], "outcome": {k: m["result"][k] for k in ("sig", "faults", "note")}})
    run_s = sum(m["t"] for m in allm)
    ev = {
        "property": spec.prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": len(allm), "distinct_nontrivial": len(sigs), "rule": spec.rule, "samples": samples,
            "runs_per_hour": round(len(allm) / max(t_explore, 1e-9) * 3600),
            "seeds_per_hour": round(len(allm) / max(t_explore, 1e-9) * 3600),
            "process_seconds_in_runs": round(run_s, 1),
            "simulated_steps": steps, "simulated_seconds": round(simtime, 1),
            "faults_fired": faults, "distinct_states_measure": spec.interleaving_measure or "distinct signatures, see rule",
            "probes": probes, "unreproduced_reports": len(unreproduced),
            "trivial_runs": sum(1 for m in allm if not m["result"]["nontrivial"]),
            "components_real": spec.real, "components_stub": spec.stub,
            "simulation_processes": W, "process_start_s": round(sum(setup_s) / max(1, len(setup_s)), 1),
        },
        "assumptions": spec.assumptions, "wall_s": round(time.time() - t0, 1),
        "violations": 1 if violation else 0,
    }
    if known_hits:
        ev["coverage"]["known_findings_seen"] = sorted(known_hits)
    d = os.path.join(env.VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, spec.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
