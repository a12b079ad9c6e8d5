"""Sharded exhaustive enumeration, violation / known-finding handling, evidence."""
import hashlib
import json
import mmap
import os
import pickle
import signal
import struct
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NPROC = int(os.environ.get("MC_NPROC", "8"))
CASE_LIMIT = float(os.environ.get("MC_CASE_LIMIT", "150"))
KNOWN = {}  # listed findings of the property being checked
MAXFAIL = int(os.environ.get("MC_MAXFAIL", "200"))


class Group:
    """A finite, deterministic family of cases: `gen` yields JSON-able cases,
    `run(case, rec)` executes one on the real code against the oracle."""

    def __init__(self, name, gen, run, bound=""):
        self.name, self.gen, self.run, self.bound = name, gen, run, bound


class Rec:
    def __init__(self):
        self.states = set()
        self.steps = 0
        self.cases = 0
        self.per_group = {}
        self.fails = []
        self.known = set()
        self.samples = {}
        self.cur = None

    def state(self, canon):
        self.states.add(hashlib.blake2b(repr(canon).encode(), digest_size=8).digest())

    def step(self, n=1):
        self.steps += n

    def fail(self, msg, key=None):
        if key and key in KNOWN:
            # one instance of a listed finding is enough
            if key in self.known:
                return
            self.known.add(key)
        if len(self.fails) < 400:
            i, g, case = self.cur
            self.fails.append((i, g, case, key or "", str(msg)[:2000]))

    def expect(self, cond, msg, key=None):
        if not cond:
            self.fail(msg() if callable(msg) else msg, key)
        return cond


def exception_text(e):
    tb = traceback.extract_tb(e.__traceback__)
    where = " <- ".join(
        "%s:%s" % (os.path.basename(f.filename), f.name) for f in reversed(tb[-4:])
    )
    return "unexpected %s: %s (%s)" % (type(e).__name__, e, where)


def known_findings(pid):
    keys = {}
    path = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: property=%s " % pid):
                rest = line.split(" ", 2)[2]
                if rest.startswith("key="):
                    key, _, text = rest[4:].partition(" ")
                    keys[key] = text
    return keys


def _run_case(rec, i, g, case):
    rec.cur = (i, g.name, case)
    rec.cases += 1
    rec.per_group[g.name] = rec.per_group.get(g.name, 0) + 1
    if g.name not in rec.samples:
        rec.samples[g.name] = case
    try:
        g.run(case, rec)
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:
        rec.fail(exception_text(e))


def _shard(groups, shard, n, deadline, mem, only):
    rec = Rec()
    i = -1
    cut = None
    for g in groups:
        if only and g.name not in only:
            continue
        for case in g.gen():
            i += 1
            if i % n != shard:
                continue
            mem[16 * shard : 16 * shard + 16] = struct.pack("<qd", i, time.time())
            _run_case(rec, i, g, case)
            if len(rec.fails) >= MAXFAIL:
                cut = "stopped after %d failures" % MAXFAIL
                break
            if time.time() > deadline:
                cut = "deadline in group %s at case %d" % (g.name, i)
                break
        if cut:
            break
    mem[16 * shard : 16 * shard + 16] = struct.pack("<qd", -2, time.time())
    return rec, cut


def explore(groups, budget, only=None, nproc=None):
    """Run every case of every group; returns (list of Rec, list of cut notes)."""
    n = nproc or NPROC
    deadline = time.time() + budget
    mem = mmap.mmap(-1, 16 * n)
    kids = {}
    sys.stdout.flush()
    sys.stderr.flush()
    for s in range(n):
        mem[16 * s : 16 * s + 16] = struct.pack("<qd", -1, time.time())
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                signal.signal(signal.SIGTERM, signal.SIG_DFL)
                rec, cut = _shard(groups, s, n, deadline, mem, only)
                rec.cur = None
                with os.fdopen(w, "wb") as f:
                    pickle.dump((rec, cut), f)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(code)
        os.close(w)
        kids[s] = [pid, r, bytearray()]
    import select

    recs, cuts, lost = [], [], []
    fds = {k[1]: s for s, k in kids.items()}
    while fds:
        ready, _, _ = select.select(list(fds), [], [], 1.0)
        for fd in ready:
            s = fds[fd]
            data = os.read(fd, 1 << 20)
            if data:
                kids[s][2] += data
                continue
            os.close(fd)
            del fds[fd]
            _, status = os.waitpid(kids[s][0], 0)
            idx, _t = struct.unpack("<qd", mem[16 * s : 16 * s + 16])
            if status == 0 and kids[s][2]:
                rec, cut = pickle.loads(bytes(kids[s][2]))
                recs.append(rec)
                if cut:
                    cuts.append(cut)
            else:
                why = kids[s][3] if len(kids[s]) > 3 else (
                    "the process died with status %d (signal %d)"
                    % (status, status & 127)
                )
                lost.append((idx, why))
        now = time.time()
        for fd, s in list(fds.items()):
            idx, t = struct.unpack("<qd", mem[16 * s : 16 * s + 16])
            if idx >= 0 and now - t > CASE_LIMIT and len(kids[s]) == 3:
                kids[s].append("no termination within %.0f s" % CASE_LIMIT)
                os.kill(kids[s][0], signal.SIGKILL)
    if lost:
        rec = Rec()
        want = dict(lost)
        i = -1
        for g in groups:
            if only and g.name not in only:
                continue
            for case in g.gen():
                i += 1
                if i in want:
                    rec.cur = (i, g.name, case)
                    rec.fail("crash or hang: " + want[i])
                if i >= max(want):
                    break
        if not rec.fails:
            raise SystemExit("worker lost outside any case: %r" % lost)
        recs.append(rec)
        cuts.append("worker lost: %r" % lost)
    return recs, cuts


def jsonable(x):
    try:
        json.dumps(x)
        return x
    except TypeError:
        return repr(x)


def main(pid, level, groups, tier, seed, level_cov=None, assumptions=(), only=None):
    t0 = time.time()
    KNOWN.update(known_findings(pid))
    budget = float(
        os.environ.get("MC_BUDGET", {"quick": "400", "thorough": "780"}[tier])
    )
    recs, cuts = explore(groups, budget, only)
    states = set()
    for r in recs:
        states |= r.states
    cases = sum(r.cases for r in recs)
    steps = sum(r.steps for r in recs)
    per_group = {}
    samples = {}
    for r in recs:
        for k, v in r.per_group.items():
            per_group[k] = per_group.get(k, 0) + v
        for k, v in r.samples.items():
            samples.setdefault(k, jsonable(v))
    fails = sorted(
        (f for r in recs for f in r.fails), key=lambda f: (f[0], f[3], f[4])
    )
    known = known_findings(pid)
    hits = {}
    viol = []
    for f in fails:
        if f[3] and f[3] in known:
            hits.setdefault(f[3], f)
        else:
            viol.append(f)
    for k in sorted(known):
        if k in hits:
            print("KNOWN-FINDING: property=%s %s" % (pid, known[k]))
        elif not only:
            print("note: known finding %s was not reproduced in this run" % k)
    evdir = os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    bounds = {g.name: g.bound for g in groups if g.bound}
    cov = {
        "states": len(states),
        "transitions": steps,
        "traces_validated_against_impl": cases,
        "samples": [{"group": k, "case": v} for k, v in sorted(samples.items())][:40],
        "cases_per_group": per_group,
        "bounds": bounds,
        "exhaustive": not cuts,
        "cuts": cuts,
        "known_findings_hit": sorted(hits),
        "meaning": "states: distinct canonical model states / observations reached; "
        "transitions: operations executed on the real code; traces: complete "
        "histories replayed on the implementation and compared with the model",
    }
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": level,
        "coverage": cov,
        "assumptions": list(assumptions),
        "wall_s": round(time.time() - t0, 3),
        "violations": len(viol),
    }
    tmp = os.path.join(evdir, pid + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=repr)
    if os.environ.get("MC_DUMP"):
        with open(os.environ["MC_DUMP"], "w") as f:
            json.dump(viol, f, default=repr)
    os.replace(tmp, os.path.join(evdir, pid + ".json"))
    print(
        "%s [%s] %d histories, %d transitions, %d states, %.1f s%s"
        % (pid, tier, cases, steps, len(states), time.time() - t0,
           "" if not cuts else " (NOT exhaustive: %s)" % "; ".join(cuts))
    )
    if not viol:
        return 0
    seen = set()
    nshown = 0
    for i, g, case, key, msg in viol:
        sig = (g, key, msg[:60])
        if sig in seen:
            continue
        seen.add(sig)
        nshown += 1
        if nshown > 12:
            break
        rp = os.path.join(evdir, "%s-violation-%d.json" % (pid, nshown))
        with open(rp, "w") as f:
            json.dump(
                {"property": pid, "group": g, "case": case, "key": key, "message": msg},
                f,
                indent=1,
                default=repr,
            )
        if nshown <= 6:
            print("VIOLATION property=%s replay=%s" % (pid, rp))
            print("  group=%s key=%s case=%s" % (g, key, repr(case)[:600]))
            print("  " + msg[:900])
    print("%d violating checks in total" % len(viol))
    return 1


def replay(groups, path):
    with open(path) as f:
        d = json.load(f)
    for g in groups:
        if g.name == d["group"]:
            rec = Rec()
            _run_case(rec, 0, g, d["case"])
            for f in rec.fails:
                print("FAIL", f[3], f[4])
            print("%d failures" % len(rec.fails))
            return 1 if rec.fails else 0
    raise SystemExit("no group %s" % d["group"])
