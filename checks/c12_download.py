"""C12: a download saves the whole file or fails and leaves nothing behind.

Simulated: name service, connections, HTTP servers (status codes, redirects, lengths, chunks, compression, delays, silence,
resets, torn bodies), the clock, the disk the file is written to, and the moment at which the process is killed; after that,
and sometimes after an ordinary end, it is started again with the same path.
Checked: success means the file is exactly what the server sent in a complete 200 answer; a failure leaves the path as it was and
no other file; the call ends within a bounded simulated time and number of requests; once the server has recovered from failures
that are retried, the download succeeds."""
import gzip
import os
import random

from sim import disk, net, sched
from sim.harness import Violation
from . import common

PROPERTY = "C12"
COLLECT = False     # no graphs here
RETRIED = ("refused", "dns", "500", "502", "503", "504", "reset early", "close early", "retry-after")
OTHER = ("torn body", "torn chunks", "reset in body", "silent connect", "silent early", "silence in body", "404", "403", "410", "204",
         "304", "202", "206", "loop", "garbage", "bad gzip", "400", "300")
GOOD = ("length", "chunks", "until close", "gzip", "gzip chunks", "slow", "redirect", "redirect relative", "empty", "lower case")
BOUND = 3600.0


def make_refs(ctx, i, n):
    return {}


def setup(ctx):
    common.load()
    import requests  # noqa: F401


def body(sc, n=0):
    r = common.derived("body", sc["run_seed"], n if sc.get("changing") else 0)
    return r.randbytes(sc["size"])


def scenario(ctx, rng):
    sc = one_scenario(rng)
    if rng.random() < 0.12:
        # several threads download the same file at the same time
        sc.update(plan=[k for k in sc["plan"] if k in RETRIED and k != "dns"][:2], retries=None, together=rng.choice([2, 2, 3]),
                  coin=rng.randrange(1 << 30), move=rng.choice([0.2, 0.5, 0.8]))
        sc.pop("lasting", None)
        if rng.random() < 0.6:
            sc["disk"] = []
            sc.pop("room", None)
        return sc
    again = 0.15
    if rng.random() < 0.25:
        op = rng.choice(["open", "write", "write", "write", "close", "mkdir", "replace", "rename"])
        sc["disk"] = [{"op": op, "n": 1, "how": "kill", "frac": rng.random()}]
        sc.pop("room", None)
        if rng.random() < 0.7:
            # reaches the disk
            sc["plan"] = [k for k in sc["plan"] if k in RETRIED][:2]
            sc.pop("lasting", None)
            sc["retries"] = None
        again = 0.8
    if rng.random() < again:
        nxt = one_scenario(rng)
        if rng.random() < 0.7:
            nxt.update(plan=[], disk=[])
            nxt.pop("lasting", None)
            nxt.pop("room", None)
        sc["then"] = nxt
    return sc


def one_scenario(rng):
    plan = []
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3, 5, 6, 8])):
        plan.append(rng.choice(RETRIED) if rng.random() < 0.6 else rng.choice(OTHER))
    sc = {"plan": plan, "good": rng.choice(GOOD), "size": rng.choice([0, 1, 10, 1000, 20000, 300000]),
          "cut": rng.random(), "path": rng.choice(["new", "new dir", "existing"]), "disk": [], "retries": rng.choice([None, None, None, 0, 2]),
          "changing": rng.random() < 0.3}
    if rng.random() < 0.2:
        # an outage that does not end
        sc["lasting"] = rng.choice(RETRIED + OTHER)
    if rng.random() < 0.4:
        op = rng.choice(["open", "write", "write", "close", "mkdir", "replace", "rename"])
        sc["disk"] = [{"op": op, "n": rng.choice([1, 1, 1, 2]), "how": rng.choice(["fail", "torn", "short"]) if op == "write" else "fail",
                       "err": rng.choice(["ENOSPC", "EIO", "EACCES", "EDQUOT"]), "frac": rng.random()}]
    if rng.random() < 0.15:
        sc["room"] = rng.randrange(0, sc["size"] + 1)
    return sc


def head(status, **h):
    lines = ["HTTP/1.1 %s" % status, "Connection: close"] + ["%s: %s" % (k.replace("_", "-"), v) for k, v in h.items()]
    return ("\r\n".join(lines) + "\r\n\r\n").encode()


def chunked(b, size=700):
    out = b""
    for i in range(0, len(b), size):
        c = b[i:i + size]
        out += b"%x\r\n" % len(c) + c + b"\r\n"
    return out + b"0\r\n\r\n"


def pieces(b, n, wait=0.01):
    k = max(1, len(b) // n)
    r = []
    for i in range(0, len(b), k):
        r += [("data", b[i:i + k]), ("wait", wait)]
    return r


class Server:
    def __init__(self, sc):
        self.sc = sc
        self.complete = []      # bodies of complete 200 answers
        self.kinds = []

    def script(self, n, request):
        sc = self.sc
        kind = sc["plan"][n] if n < len(sc["plan"]) else sc.get("lasting", "good")
        if request is not None or kind in ("refused", "dns", "silent connect"):
            if len(self.kinds) <= n:
                self.kinds.append(kind)
        if request is None:
            return net.Script({"refused": "refused", "dns": "dns", "silent connect": "silent"}.get(kind, "ok"))
        b = body(sc, n)
        cut = int(len(b) * sc["cut"])
        D = "data"
        if kind == "good":
            kind = sc["good"]
            if kind.startswith("redirect"):
                if " /second" not in request:
                    return net.Script(steps=[(D, head("302 Found", Location="/second" if "relative" in kind else
                                                      "http://models.invalid/second", Content_Length=0))])
                kind = "length"
            if kind == "empty":
                b = b""
            self.complete.append(b)
            if kind in ("length", "empty"):
                return net.Script(steps=[(D, head("200 OK", Content_Length=len(b)))] + pieces(b, 5))
            if kind == "lower case":
                return net.Script(steps=[(D, b"HTTP/1.1 200 ok\r\ncontent-length: %d\r\nconnection: close\r\n\r\n" % len(b) + b)])
            if kind == "chunks":
                return net.Script(steps=[(D, head("200 OK", Transfer_Encoding="chunked"))] + pieces(chunked(b), 7))
            if kind == "until close":
                return net.Script(steps=[(D, head("200 OK"))] + pieces(b, 3))
            if kind == "gzip":
                z = gzip.compress(b, mtime=0)
                return net.Script(steps=[(D, head("200 OK", Content_Encoding="gzip", Content_Length=len(z)))] + pieces(z, 3))
            if kind == "gzip chunks":
                z = gzip.compress(b, mtime=0)
                return net.Script(steps=[(D, head("200 OK", Content_Encoding="gzip", Transfer_Encoding="chunked"))] +
                                  pieces(chunked(z), 3))
            if kind == "slow":
                return net.Script(steps=[("wait", 20.0), (D, head("200 OK", Content_Length=len(b)))] + pieces(b, 4, 15.0))
        if kind in ("500", "502", "503", "504", "404", "403", "410", "400", "300", "202", "206"):
            return net.Script(steps=[(D, head(kind + " Status", Content_Length=9) + b"<p>no</p>")])
        if kind in ("204", "304"):
            return net.Script(steps=[(D, head(kind + " Status"))])
        if kind == "retry-after":
            return net.Script(steps=[(D, head("503 Busy", Retry_After=17, Content_Length=0))])
        if kind == "loop":
            return net.Script(steps=[(D, head("302 Found", Location="/again", Content_Length=0))])
        if kind == "reset early":
            return net.Script(steps=[("wait", 0.1), ("reset",)])
        if kind == "close early":
            return net.Script(steps=[("wait", 0.1)])
        if kind == "silent early":
            return net.Script(steps=[("silence",)])
        if kind == "garbage":
            return net.Script(steps=[(D, b"\x00\x01 not HTTP at all\r\n\r\n")])
        b = b or b"x"
        cut = min(cut, len(b) - 1)
        if kind == "torn body":
            return net.Script(steps=[(D, head("200 OK", Content_Length=len(b)) + b[:cut])])
        if kind == "torn chunks":
            c = chunked(b)
            return net.Script(steps=[(D, head("200 OK", Transfer_Encoding="chunked") + c[:max(0, min(len(c) - 3, int(len(c) * sc["cut"])) - 3)])])
        if kind == "reset in body":
            return net.Script(steps=[(D, head("200 OK", Content_Length=len(b)) + b[:cut]), ("reset",)])
        if kind == "silence in body":
            return net.Script(steps=[(D, head("200 OK", Content_Length=len(b)) + b[:cut]), ("silence",)])
        if kind == "bad gzip":
            z = gzip.compress(b, mtime=0)
            z = z[:-6] + bytes([z[-6] ^ 255]) + z[-5:]      # the checksum: in the middle, zlib may take it for an unfinished file
            return net.Script(steps=[(D, head("200 OK", Content_Encoding="gzip", Content_Length=len(z)) + z)])
        raise AssertionError(kind)


def execute(ctx, sc, res):
    root = os.path.join(ctx.scratch, "d")
    os.makedirs(root)
    path = os.path.join(root, "sub", "dir", "m.tgz") if sc["path"] == "new dir" else os.path.join(root, "m.tgz")
    old = b"an older download"
    if sc["path"] == "existing":
        with open(path, "wb") as f:
            f.write(old)
    with open(os.path.join(root, "bystander"), "wb") as f:
        f.write(b"of the caller")
    if "together" in sc:
        return together(sc, res, root, path)
    temporary = download(sc, res, root, path, ())
    if "then" in sc:
        first = res.steps, res.simtime, res.sig, res.nontrivial
        download(dict(sc["then"], run_seed=sc["run_seed"] + 1), res, root, path, temporary)
        res.steps += first[0]
        res.simtime += first[1]
        res.sig = first[2] + res.sig
        res.nontrivial = res.nontrivial or first[3]


def download(sc, res, root, path, temporary):
    """-> the temporary files that are left of a process that was killed"""
    from tf2onnx import utils
    before = disk.snapshot(root)
    server = Server(sc)
    nt = net.Net(server.script)
    dk = disk.Disk(root, sc["disk"], sc.get("room"))
    err = None
    kw = {} if sc["retries"] is None else {"max_retries": sc["retries"]}
    try:
        with nt, dk:
            utils.get_url("http://models.invalid/m.tgz", path, **kw)
    except net.Forever as e:
        raise Violation("waits for ever", "get_url waits without a time limit for %s from a server that is silent (%s)" % (
            e, server.kinds))
    except (Exception, disk.Killed) as e:
        err = e
    if dk.dead:
        err = disk.Killed("killed")
    res.steps = len(nt.log) + len(dk.log)
    res.simtime = nt.now
    for k in server.kinds:
        if k != "good":
            res.fault("network: " + k)
    for w, _ in dk.fired:
        res.fault("disk: " + w)
    res.nontrivial = any(k != "good" for k in server.kinds) or bool(dk.fired)
    res.sig = [server.kinds[:40], sc["good"], sc["path"], [w for w, _ in dk.fired], type(err).__name__ if err else "ok"]
    what = "server: %s then %s; disk: %s" % (server.kinds[:12], "%s for ever" % sc["lasting"] if "lasting" in sc else sc["good"], [w for w, _ in dk.fired] or "no failure")
    after = disk.snapshot(root)
    rel = os.path.relpath(path, root)
    stray = sorted(k for k in set(after) | set(before) if k != rel and after.get(k) != before.get(k) and not (
        after.get(k) == ("dir",) and rel.startswith(k + "/")) and k not in temporary)
    if dk.dead:
        # nothing can remove a temporary file of a killed process
        temporary = [k for k in stray if k not in before]
        stray = [k for k in stray if k in before]
    if stray:
        raise Violation("other files", "get_url left or changed other files: %s (%s)" % (stray, what))
    if err is None:
        res.probe("downloaded")
        if not server.complete:
            raise Violation("wrong file", "get_url reported success, no server ever sent a complete file (%s); saved: %r" % (
                what, after.get(rel, "nothing")[:60]))
        if after.get(rel) != server.complete[-1]:
            raise Violation("wrong file", "get_url reported success and saved something else than the server sent: %s bytes of %d "
                            "(%s)" % (len(after.get(rel, b"")), len(server.complete[-1]), what))
    else:
        res.probe("failed")
        if dk.dead:
            if after.get(rel) != before.get(rel) and after.get(rel) not in server.complete[-1:]:
                raise Violation("partial file", "get_url was killed and %r (%s bytes) is at the path, which will be taken for the file (%s)" % (
                    (after.get(rel) or b"nothing")[:40], len(after.get(rel) or b""), what))
            return temporary
        if after.get(rel) != before.get(rel):
            raise Violation("partial file", "get_url raised %s and left %r at the path (%s)" % (
                type(err).__name__, (after.get(rel) or b"nothing")[:40], what))
        retries = 5 if sc["retries"] is None else sc["retries"]
        hard = [x for x in dk.fired if x[0] != "short"]
        if not hard and all(k in RETRIED for k in sc["plan"]) and len(sc["plan"]) <= retries and sc["good"] != "slow" and "lasting" not in sc:
            raise Violation("gave up", "the server recovered after %d failures that are retried and get_url raised %s: %s (%s)" % (
                len(sc["plan"]), type(err).__name__, str(err)[:200], what))
    if nt.now > BOUND or nt.connections > 60:
        raise Violation("takes too long", "get_url needed %.0f simulated seconds and %d connections (%s)" % (
            nt.now, nt.connections, what))
    if nt.open and err is None:
        res.probe("connections left to the collector")
    return ()


def together(sc, res, root, path):
    from tf2onnx import utils
    before = disk.snapshot(root)
    server = Server(sc)
    nt = net.Net(server.script)
    dk = disk.Disk(root, sc["disk"], sc.get("room"))
    n = sc["together"]
    s = sched.Scheduler([lambda: utils.get_url("http://models.invalid/m.tgz", path)] * n)
    coin = random.Random(sc["coin"])

    def move():
        if coin.random() < sc["move"]:
            s.yield_(coin.randrange(n), "network or disk")
    nt.before = dk.before = move
    with nt, dk:
        out = s.run(code_filter=lambda m, c: False)
    res.steps = len(nt.log) + len(dk.log)
    res.simtime = nt.now
    for k in server.kinds:
        if k != "good":
            res.fault("network: " + k)
    for w, _ in dk.fired:
        res.fault("disk: " + w)
    for _ in s.switches:
        res.fault("switch between downloads")
    res.nontrivial = bool(s.switches)
    ends = [k if k == "ok" else type(v).__name__ for k, v in out]
    res.sig = [server.kinds[:40], sc["good"], sc["path"], [w for w, _ in dk.fired], ends, [x[:2] for x in s.switches]]
    what = "%d downloads to one path at the same time; server: %s then %s; disk: %s; they end: %s" % (
        n, server.kinds[:12], sc["good"], [w for w, _ in dk.fired] or "no failure", ends)
    after = disk.snapshot(root)
    rel = os.path.relpath(path, root)
    stray = sorted(k for k in set(after) | set(before) if k != rel and after.get(k) != before.get(k) and not (
        after.get(k) == ("dir",) and rel.startswith(k + "/")))
    if stray:
        raise Violation("other files", "left or changed other files: %s (%s)" % (stray, what))
    hard = [x for x in dk.fired if x[0] != "short"]
    if not hard and ends != ["ok"] * n:
        raise Violation("gave up", "the disk and the server work and get_url raised %s (%s)" % (
            [str(v)[:100] for k, v in out if k != "ok"], what))
    if "ok" in ends:
        if after.get(rel) not in server.complete:
            raise Violation("wrong file", "get_url reported success and the file has %s bytes, sent were %s (%s)" % (
                len(after[rel]) if rel in after else "no", [len(b) for b in server.complete], what))
    elif after.get(rel) != before.get(rel):
        raise Violation("partial file", "every get_url raised and %r is left at the path (%s)" % ((after.get(rel) or b"nothing")[:40], what))
    if nt.now > n * BOUND or nt.connections > n * 60:
        raise Violation("takes too long", "%.0f simulated seconds and %d connections (%s)" % (nt.now, nt.connections, what))
    res.probe("downloads at the same time")


def shrink(sc):
    if sc.get("together", 0) > 2:
        yield dict(sc, together=2)
    if "then" in sc:
        yield {k: v for k, v in sc.items() if k != "then"}
        yield dict(sc["then"], run_seed=sc["run_seed"], path=sc["path"])
    for c in common.seq_shrink(sc, "plan", 0):
        yield c
    if sc["disk"]:
        yield dict(sc, disk=[])
    if "lasting" in sc:
        yield {k: v for k, v in sc.items() if k != "lasting"}
    if "room" in sc:
        yield {k: v for k, v in sc.items() if k != "room"}
    if sc["good"] != "length":
        yield dict(sc, good="length")
    if sc["path"] != "new":
        yield dict(sc, path="new")
    if sc["size"] > 10:
        yield dict(sc, size=10)


def scenario_of(ctx, seed):
    from sim import harness
    import sys
    return harness.make_scenario(sys.modules[__name__], ctx, seed)
