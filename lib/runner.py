"""Runs one property's check: model checking of the specification, generation
of material from it, the real client on that material, and the judgement of
the recorded traces by the specification."""
import collections
import concurrent.futures as cf
import json
import os
import random
import re
import resource
import shutil
import subprocess
import tempfile
import time

import models
import profiles
import scen

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
TARGET = os.path.join(HARNESS, "target")
EVID = os.path.join(VERIF, "evidence")
TLADIR = "/opt/veriftools/tla"
CP = TLADIR + "/tla2tools.jar:" + TLADIR + "/CommunityModules-deps.jar"
CORES = 8


class ToolError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def build():
    env = dict(os.environ)
    env.pop("RUSTFLAGS", None)
    env["CARGO_NET_OFFLINE"] = "true"
    r = subprocess.run(["cargo", "build", "--offline", "--target-dir", TARGET], cwd=HARNESS, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise ToolError("the harness does not build against /repo:\n" + r.stdout[-3000:])
    return os.path.join(TARGET, "debug", "ruq-harness")


# ------------------------------------------------------------------- TLC
class Work:
    """a scratch directory with a copy of the specifications"""

    def __init__(self):
        base = os.path.join(VERIF, "work")
        os.makedirs(base, exist_ok=True)
        self.dir = tempfile.mkdtemp(dir=base)
        for f in os.listdir(SPEC):
            shutil.copy(os.path.join(SPEC, f), self.dir)
        self.n = 0

    def path(self, name):
        return os.path.join(self.dir, name)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def tlc(self, module, cfg, workers=1, args=(), env=None, xss="64m", xmx="3g", timeout=None, parallel=False, jvm=()):
        self.n += 1
        md = self.path("md%d-%s" % (self.n, cfg))
        e = dict(os.environ)
        e.update(env or {})
        gc = ["-XX:+UseParallelGC"] if parallel else ["-XX:+UseSerialGC", "-XX:TieredStopAtLevel=4"]
        cmd = ["java", "-Xss" + xss, "-Xmx" + xmx, "-Djava.io.tmpdir=" + self.dir] + gc + list(jvm) + ["-cp", CP, "tlc2.TLC", "-noGenerateSpecTE",
               "-metadir", md, "-workers", str(workers), *args, "-config", cfg, module]
        t = time.time()
        p = subprocess.Popen(cmd, cwd=self.dir, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        try:
            out, _ = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            out, _ = p.communicate()
            out = (out or "") + "\nTIMEOUT"
        shutil.rmtree(md, ignore_errors=True)
        return out, time.time() - t


STATES = re.compile(r"([\d,]+) states generated, ([\d,]+) distinct")


def states_of(out):
    m = STATES.findall(out)
    if not m:
        return 0, 0
    return int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))


def model_check(work, name, inst, workers, timeout, expect_bug=None, liveness=False):
    """one instance of Session.tla; returns (transitions, states, complete, seconds)"""
    cfg = name + ".cfg"
    with open(work.path(cfg), "w") as f:
        f.write(models.cfg(inst))
    out, sec = work.tlc("Session.tla", cfg, workers=workers, parallel=True, xmx="6g", timeout=timeout)
    trans, states = states_of(out)
    bad = re.findall(r"Invariant (\w+) is violated", out)
    if expect_bug:
        if not bad:
            raise ToolError("the model with the defect %s satisfies the property: %s" % (expect_bug, out[-1500:]))
        return trans, states, True, sec
    if bad or "Error:" in out:
        with open(work.path(name + ".out"), "w") as f:
            f.write(out)
        raise ToolError("the specification of the client violates its own property (%s):\n%s" % (bad, out[-4000:]))
    done = "Model checking completed. No error has been found." in out
    if not done and "TIMEOUT" not in out:
        raise ToolError("TLC failed on %s:\n%s" % (name, out[-3000:]))
    return trans, states, done, sec


def module_check(work, name, module, text, workers, timeout, expect_bug=None):
    cfg = name.replace(" ", "-") + ".cfg"
    with open(work.path(cfg), "w") as f:
        f.write(text)
    out, sec = work.tlc(module + ".tla", cfg, workers=workers, parallel=True, xmx="6g", timeout=timeout,
                        args=("-lncheck", "final") if "SPECIFICATION Fair" in text else ())
    trans, states = states_of(out)
    if expect_bug:
        if not re.search("(is|was|were) violated", out):
            raise ToolError("%s with the defect %s satisfies the property: %s" % (module, expect_bug, out[-1500:]))
        return trans, states, True, sec
    done = "No error has been found." in out
    if not done and "TIMEOUT" not in out:
        raise ToolError("%s violates its own property:\n%s" % (module, out[-3000:]))
    return trans, states, done, sec


NODE = re.compile(r'^(-?\d+) \[label="(.*)"(?:,style = filled)?\];?\s*$')
EDGE = re.compile(r'^(-?\d+) -> (-?\d+)')


def id_tour(work, top):
    """a walk along every edge of the allocator's state graph: 0 requests an
    identifier, n returns n"""
    with open(work.path("tour.cfg"), "w") as f:
        f.write("SPECIFICATION TourSpec\nVIEW TourView\nCHECK_DEADLOCK FALSE\nCONSTANTS\n  Max = %d\n  Bug = \"none\"\n" % top)
    out, _ = work.tlc("PktIdsTour.tla", "tour.cfg", args=("-dump", "dot", "tour.dot"), timeout=300)
    if "No error has been found" not in out:
        raise ToolError("PktIdsTour failed:\n" + out[-3000:])
    node, op, edges, init = {}, {}, collections.defaultdict(dict), None
    raw = []
    with open(work.path("tour.dot")) as f:
        for l in f:
            m = EDGE.match(l)
            if m:
                raw.append((m.group(1), m.group(2)))
                continue
            m = NODE.match(l)
            if m:
                t = m.group(2).replace("\\n", " ").replace('\\\\', "\\")
                o = re.search(r"op = (\d+)", t)
                base = re.sub(r"/?\\* *(op|got) = \d+", "", t)
                base = " ".join(sorted(base.replace("/", " ").replace("\\", " ").split()))
                node[m.group(1)], op[m.group(1)] = base, int(o.group(1))
                if init is None:
                    init = base
    for a, b in raw:
        if a in node and b in node:
            edges[node[a]][op[b]] = node[b]
    todo = {(s, o) for s in edges for o in edges[s]}
    total = len(todo)
    cur, walk, walks = init, [], []
    while todo:
        here = [o for o in edges[cur] if (cur, o) in todo]
        if here:
            path = [max(here)]
        else:
            prev, q, goal = {cur: None}, collections.deque([cur]), None
            while q:
                x = q.popleft()
                if any((x, o) in todo for o in edges[x]):
                    goal = x
                    break
                for o, y in edges[x].items():
                    if y not in prev:
                        prev[y] = (x, o)
                        q.append(y)
            if goal is None:
                # the vector of ranges never shrinks: start again
                if cur == init and not walk:
                    break
                walks.append(walk)
                cur, walk = init, []
                continue
            path = []
            while prev[goal]:
                goal, o = prev[goal]
                path.append(o)
            path.reverse()
        for o in path:
            todo.discard((cur, o))
            walk.append(o)
            cur = edges[cur][o]
    walks.append(walk)
    return dict(max=top, walks=[w for w in walks if w], edges=total, missed=len(todo), states=len(edges))


def gen_wire(work):
    p = work.path("wire.ndjson")
    out, _ = work.tlc("WireGen.tla", "WireGen.cfg", env={"OUT": p}, xss="256m")
    if "No error has been found" not in out or not os.path.exists(p):
        raise ToolError("WireGen failed:\n" + out[-3000:])
    with open(p) as f:
        return [json.loads(l) for l in f]


def parse_printed(line):
    """a line TLC printed with PrintT of a string"""
    return json.loads(json.loads(line).split(" ", 1)[1])


def gen_schedules(work, flavour, num, seed, timeout=300):
    """random behaviours of SessionGen, or (all-*) every one within the bounds"""
    exhaustive = flavour in profiles.ALL
    inst, start, late = (profiles.ALL if exhaustive else profiles.FLAVOURS)[flavour][:3]
    cfg = "gen-%s.cfg" % flavour
    with open(work.path(cfg), "w") as f:
        f.write(models.cfg(inst, "INVARIANTS NoViolation Out\n", "GenSpec").replace("VIEW View", "VIEW GenView")
                + '  Start = "%s"\n  Late = %s\n' % (start, "TRUE" if late else "FALSE"))
    args = () if exhaustive else ("-simulate", "num=%d" % max(1, num), "-depth", "150", "-seed", str(seed))
    out, sec = work.tlc("SessionGen.tla", cfg, workers=4 if exhaustive else 1, args=args, parallel=True, timeout=timeout)
    acts, pkts, cmds, seen = [], {}, {}, set()
    for l in out.split("\n"):
        if l.startswith('"ACTS '):
            if l not in seen:
                seen.add(l)
                acts.append(parse_printed(l))
        elif l.startswith('"PKT '):
            k, v = parse_printed(l)
            pkts[k] = v
        elif l.startswith('"CMD '):
            k, v = parse_printed(l)
            cmds[k] = v
    if "is violated" in out or not acts or not pkts or (exhaustive and "No error has been found" not in out):
        raise ToolError("schedule generation failed (%s):\n%s" % (flavour, out[-3000:]))
    return acts, pkts, cmds


def gen_connect(work, deep):
    """every behaviour of Connect within the bounds: (number of addresses, what the environment does)"""
    out = []
    for n, k in ((1, 5), (2, 5), (3, 4)) if not deep else ((1, 6), (2, 6), (3, 6)):
        cfg = "connect-%d.cfg" % n
        with open(work.path(cfg), "w") as f:
            f.write('SPECIFICATION Spec\nINVARIANTS Out\nCHECK_DEADLOCK FALSE\nCONSTANTS\n  N = %d\n  Cap = 9\n  MaxEnv = %d\n  Bug = "none"\n' % (n, k))
        t, _ = work.tlc("Connect.tla", cfg, timeout=300)
        hs = {l for l in t.split("\n") if l.startswith('"ACTS ')}
        if "No error has been found" not in t or not hs:
            raise ToolError("Connect failed:\n" + t[-3000:])
        out += [(n, parse_printed(l)) for l in sorted(hs)]
    return out


# --------------------------------------------------------------- harness
def limits():
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run_harness(binary, path, trace, n, timeout=600):
    """runs every scenario of the file; returns how often the client took the process down"""
    if os.path.exists(trace):
        os.remove(trace)
    open(trace, "w").close()
    skip, crashes = 0, 0
    t0 = time.time()
    while skip < n:
        left = timeout - (time.time() - t0)
        if left <= 0:
            raise ToolError("the harness takes too long")
        p = subprocess.Popen([binary, path, trace, str(skip)], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                             text=True, preexec_fn=limits, env=dict(os.environ, RUST_BACKTRACE="0"))
        try:
            out, err = p.communicate(timeout=left)
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            raise ToolError("the harness takes too long (%s)" % path)
        done = out.split()
        last = int(done[-1]) if done else skip - 1
        if p.returncode == 0:
            break
        if p.returncode == 3:
            # hang; the trace already says so
            skip = last + 2
            crashes += 1
        elif p.returncode < 0 or p.returncode == 101 or p.returncode > 128:
            # the process died (abort, stack overflow, out of memory)
            crashes += 1
            skip = last + 2
            with open(trace) as f:
                text = f.read()
            cut = text.rfind("\n") + 1
            lines = text[:cut].split("\n")
            t = 0
            for l in reversed(lines):
                if l:
                    e = json.loads(l)
                    t = e.get("t", 0)
                    break
            with open(trace, "w") as f:
                f.write(text[:cut])
                if lines[-2:] and any(l for l in lines) and not (lines[-2].startswith('{"e":"End"')):
                    f.write(json.dumps(dict(e="Panic", t=t, msg="process died: %s" % p.returncode)) + "\n")
                    f.write(json.dumps(dict(e="End", t=t)) + "\n")
                else:
                    raise ToolError("the harness died between scenarios: %s %s" % (p.returncode, err[-800:]))
        else:
            raise ToolError("harness error %s: %s" % (p.returncode, err[-1500:]))
    return crashes


VIOL = re.compile(r'<<\s*"VIOL",\s*"(C\d+)",\s*"([^"]*)",\s*"([^"]*)",\s*(\d+)\s*>>')
JUDGED = re.compile(r'<<\s*"JUDGED",\s*(\d+)\s*>>')


def judge(work, trace):
    """RuqTrace on one trace file: the list of (prop, scenario, reason, line)"""
    n = sum(1 for _ in open(trace))
    if n == 0:
        return [], 0
    out, sec = work.tlc("RuqTrace.tla", "RuqTrace.cfg", env={"TRACE": trace}, xss="512m", timeout=840)
    m = JUDGED.search(out)
    if not m or int(m.group(1)) != n:
        raise ToolError("trace not judged:\n" + out[-3000:])
    return [(a, b, c, int(d)) for a, b, c, d in VIOL.findall(out)], n


SERIAL_OK = re.compile(r'<<"OK", (\d+)>>')


def serial(work, trace):
    """SerialTrace on one trace file: the scenarios no serial machine explains"""
    scs = []
    with open(trace) as f:
        for l in f:
            e = json.loads(l)
            k = e["e"]
            if k == "Begin":
                cur = dict(id=e["id"], refused=e["refused"], lines=[], w=[], n=[], lost=False, deaf=False, skip=False)
                scs.append(cur)
                continue
            if k in ("Bulk", "BAcks", "Rain", "Storm", "Gone", "Threads", "Start"):
                cur["skip"] = True
            elif k == "Wire":
                cur["w"].append(e["p"])
            elif k == "Notif":
                cur["n"].append(e)
            elif k == "WireEof":
                cur["lost"] |= bool(e["rst"])
            elif k == "DropRx":
                cur["deaf"] = True
            cur["lines"].append(e)
    scs = [s for s in scs if not s.pop("skip")]
    if not scs:
        return [], 0, 0
    with open(trace + ".serial", "w") as f:
        for s in scs:
            f.write(json.dumps(s) + "\n")
    out, _ = work.tlc("SerialTrace.tla", "SerialTrace.cfg", env={"TRACE": trace + ".serial"}, xss="512m", timeout=840,
                      jvm=("-Dtlc2.tool.queue.IStateQueue=StateDeque",))
    os.remove(trace + ".serial")
    if "No error has been found" not in out:
        raise ToolError("SerialTrace failed:\n" + out[:3000])
    ok = {int(x) for x in SERIAL_OK.findall(out)}
    return [s["id"] for i, s in enumerate(scs) if i + 1 not in ok], len(scs), states_of(out)[1]


def judge_for(work, prop, trace):
    """violations of the property on the trace: (scenario, reason, line)"""
    v, n = judge(work, trace)
    # one client among several has to do what it would do alone
    out = [x[1:] for x in v if x[0] == prop or (prop == "C23" and "/" in x[1])]
    sn = st = 0
    if prop == "C20":
        bad, sn, st = serial(work, trace)
        out += [(b, "missing: an explanation by handling one stimulus at a time", 0) for b in bad]
    return out, n, sn, st


def units(scs):
    """scenarios of one group stay together"""
    out, last = [], None
    for s in scs:
        g = s.get("grp") or None
        if g and g == last:
            out[-1].append(s)
        else:
            out.append([s])
        last = g
    return out


# rough cost of a scenario, to balance the work
COST = {"memory": 60, "rain": 4, "storm": 30, "longlife": 12, "idle": 8, "exhaust": 40, "ackforms": 45, "text_in": 3, "text_out": 3, "recycle": 120, "idtour": 60, "huge_out": 120, "sizes_in": 20, "slow": 20, "slow_edge": 15, "queue": 12, "mixed": 5,
        "halted": 8, "cuts_head": 8, "drops": 3, "sizes_out": 6, "ping": 4, "toolong": 3}


def split(scs, k, rng):
    us = units(scs)
    rng.shuffle(us)
    us.sort(key=lambda u: -sum(COST.get(s["id"].split(".")[0], 1) for s in u))
    parts = [[0, []] for _ in range(k)]
    for u in us:
        p = min(parts, key=lambda p: p[0])
        p[0] += sum(COST.get(s["id"].split(".")[0], 1) for s in u)
        p[1] += u
    return [p[1] for p in parts if p[1]]


def trace_of(path, sid):
    out, on = [], False
    with open(path) as f:
        for l in f:
            if l.startswith('{"e":"Begin"'):
                on = json.loads(l)["id"] == sid
            if on:
                out.append(l.rstrip("\n"))
    return out


def interesting(prop, counts):
    """events of the traces that the property is about"""
    keys = {"C01": ["Accept", "Wire"], "C02": ["Done"], "C03": ["Call", "Wire"], "C04": ["Wire"], "C05": ["Call"],
            "C06": ["Wire", "Bulk"], "C07": ["Wire", "Bulk", "BAcks"], "C08": ["BSend", "Wire"], "C09": ["Notif"],
            "C10": ["Notif"], "C11": ["BSend"], "C12": ["BSend", "BEnd"], "C13": ["BSend", "Done"], "C14": ["Wire"],
            "C15": ["Wire", "Done"], "C16": ["Call", "Done"], "C17": ["BEnd", "Done"], "C18": ["Drop", "DropRx"],
            "C19": ["Call"], "C20": ["Wire", "Notif", "Done"],
            "C21": ["Settle", "Bulk", "Rain"], "C22": ["Done", "Gone", "NEnd", "WireEof"],
            "C24": ["Drive", "Accept", "Done"],
            "C23": ["Begin", "Call", "Wire", "Notif", "Done"]}[prop]
    return {k: counts.get(k, 0) for k in keys}


def make_scenarios(prop, tier, seed, sched, wire, tour=None, connect=None):
    ctx = scen.Ctx(seed, tier, sched, wire)
    ctx.tour, ctx.connect = tour, connect
    fl, fams = profiles.schedules(prop, tier == "quick"), profiles.PROFILE[prop][1]
    scs = []
    for flavour, n, seeds, pre in fl:
        k = n if tier == "quick" else n * 12
        scs += scen.sched(flavour, seeds, pre)(ctx, k)
    for name, q, t in fams:
        scs += scen.FAMS[name](ctx, q if tier == "quick" else t)
    return scs


def run(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    work = Work()
    try:
        return run_in(work, prop, tier, seed, t0)
    finally:
        work.close()


def run_in(work, prop, tier, seed, t0):
    quick = tier == "quick"
    fl, fams = profiles.schedules(prop, quick), profiles.PROFILE[prop][1]
    inst, more, bugs = models.MODELS[prop]
    pool = cf.ThreadPoolExecutor(CORES)
    fbuild = pool.submit(build)
    # 1. the property on the specification of the client
    jobs = {"quick": pool.submit(model_check, work, "model-" + prop, inst, 2 if quick else 4, 400 if quick else 700)}
    if not quick:
        for i, x in enumerate(more):
            jobs["deeper%d" % i] = pool.submit(model_check, work, "model-%s-%d" % (prop, i), x, 4, 700)
        for b, o in bugs.items():
            d = dict(inst)
            d.update(o)
            d["Bug"] = b
            d["Watch"] = {prop}
            jobs["defect " + b] = pool.submit(model_check, work, "bug-%s-%s" % (prop, b), d, 2, 600, b)
    for i, (module, q, th, head, mbugs) in enumerate(models.EXTRA.get(prop, [])):
        jobs["%s" % module] = pool.submit(module_check, work, "x%d" % i, module, models.plain(head, q if quick else th), 2 if quick else 4, 400 if quick else 700)
        if not quick:
            for b in mbugs:
                jobs["%s defect %s" % (module, b)] = pool.submit(module_check, work, "x%d-%s" % (i, b), module,
                                                                 models.plain(head, dict(q, Bug='"%s"' % b)), 2, 600, b)
    # 2. material generated from it
    ftour = pool.submit(id_tour, work, 4 if quick else 5) if any(f[0] == "idtour" for f in fams) else None
    fconn = pool.submit(gen_connect, work, not quick) if any(f[0] == "connect" for f in fams) else None
    fwire = pool.submit(gen_wire, work)
    fs = {}
    for flavour, n, seeds, pre in fl:
        if flavour not in fs:
            k = max(x[1] for x in fl if x[0] == flavour) * (1 if quick else 12)
            fs[flavour] = pool.submit(gen_schedules, work, flavour, k * 2, seed)
    wire = fwire.result()
    sched = {k: f.result() for k, f in fs.items()}
    binary = fbuild.result()
    tour = ftour.result() if ftour else None
    connect = fconn.result() if fconn else None
    scs = make_scenarios(prop, tier, seed, sched, wire, tour, connect)
    tgen = time.time() - t0
    # 3. the real client on it, and the judgement of what it did
    parts = split(scs, CORES * (2 if quick else 6), random.Random(seed))
    counts = collections.Counter()

    def part(i):
        p, tr = work.path("s%d.ndjson" % i), work.path("t%d.ndjson" % i)
        scen.dump(parts[i], p)
        run_harness(binary, p, tr, len(parts[i]))
        v, n, sn, st = judge_for(work, prop, tr)
        c = collections.Counter()
        c["serial_scenarios"], c["serial_states"] = sn, st
        with open(tr) as f:
            for l in f:
                c[l[6:l.index('"', 6)]] += 1
        if not v and i:
            os.remove(tr)
        return v, n, c

    lines, found = 0, []
    for i, f in enumerate([pool.submit(part, i) for i in range(len(parts))]):
        v, n, c = f.result()
        lines += n
        counts.update(c)
        found += [(i,) + x for x in v]
    tjudge = time.time() - t0
    due = sum(s.get("twins", 1) for s in scs)
    if counts["End"] != counts["Begin"] or counts["Begin"] > due or (counts["Begin"] < due and not any("twins" in s for s in scs)):
        raise ToolError("scenarios are missing from the traces: %s of %d" % (counts, len(scs)))
    extra = {}
    serial_n, serial_st = counts.pop("serial_scenarios", 0), counts.pop("serial_states", 0)
    if serial_n:
        extra["explained_by_the_serial_machine"] = dict(scenarios=serial_n, states=serial_st)
    if connect:
        extra["connect_behaviours_generated"] = len(connect)
    if tour:
        extra["allocator_tour"] = dict(max=tour["max"], states=tour["states"], edges=tour["edges"], edges_missed=tour["missed"], steps=sum(len(w) for w in tour["walks"]))
    confirmed = []
    byid = {s["id"]: s for s in scs}
    groups = collections.defaultdict(list)
    for s in scs:
        if s.get("grp"):
            groups[s["grp"]].append(s)
    seen = set()
    for i, sid, why, line in found:
        if sid in seen:
            continue
        seen.add(sid)
        s = byid[sid.split("/")[0]]
        sub = groups[s["grp"]] if s.get("grp") else [s]
        r = reproduce(work, binary, prop, sub, why, i, sid)
        if r:
            confirmed.append((sid, why, sub, r))
        if len(confirmed) >= 3 or len(seen) >= 12 or (confirmed and time.time() - t0 > 240):
            break
    res = {k: j.result() for k, j in jobs.items()}
    trans = sum(r[0] for r in res.values())
    states = sum(r[1] for r in res.values())
    texts = {json.dumps(dict(s, id=0, seed=0)) for s in scs}
    sample = json.dumps(scs[len(scs) // 2])
    wall = time.time() - t0
    ev = dict(
        property=prop, tier=tier, seed=seed, level="model_checking",
        coverage=dict(
            states=states, transitions=trans,
            exhaustive=all(r[2] for r in res.values()),
            models={k: dict(states=r[1], transitions=r[0], complete=r[2], seconds=round(r[3], 1)) for k, r in res.items()},
            traces_validated_against_impl=len(scs),
            distinct_scenarios=len(texts),
            schedules_generated_by_tlc={k: len(v[0]) for k, v in sched.items()},
            packets_generated_by_tlc=len(wire),
            scenarios_by_family=dict(collections.Counter(s["id"].split(".")[0] for s in scs)),
            trace_events_judged=lines, events=dict(counts), events_the_property_is_about=interesting(prop, counts),
            seconds=dict(generation=round(tgen, 1), execution_and_judgement=round(tjudge - tgen, 1)),
            samples=[json.loads(sample) if len(sample) < 4000 else sample[:4000]],
            **extra),
        assumptions=[
            "loopback TCP behaves like TCP; the client is observed when it is idle, on a paused clock",
            "the broker, application and time are driven by harness/, the judgement is spec/RuqObs.tla"],
        wall_s=round(wall, 1), violations=len(confirmed))
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for kf in known(prop):
        log("KNOWN-FINDING: property=%s %s" % (prop, kf))
    log("%s %s: %d states, %d traces (%d events) in %.0f s" % (prop, tier, states, len(scs), lines, wall))
    if not confirmed:
        return 0
    sid, why, sub, tr = confirmed[0]
    rp = os.path.join(EVID, "replay-%s.json" % prop)
    with open(rp, "w") as f:
        json.dump(dict(property=prop, scenario=sid, reason=why, scenarios=sub, trace=tr[-400:]), f)
    for sid, why, _, _ in confirmed:
        log("%s in scenario %s: %s" % (prop, sid, why))
    log("VIOLATION property=%s replay=%s" % (prop, rp))
    return 1


def known(prop):
    p = os.path.join(VERIF, "known-findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\w+) (.*)", l)
            if m and m.group(1) == prop:
                out.append(m.group(2))
    return out


def reproduce(work, binary, prop, sub, why, part, sid):
    """A violation that consists in something having happened stands as it is;
    one that consists in something not having happened (yet), or in a hang,
    has to happen again when the scenario runs alone."""
    old = trace_of(work.path("t%d.ndjson" % part), sid)
    weak = why.startswith("missing") or "hangs" in why or "spins" in why
    n = 0
    for k in range(12 if sid.startswith("threads") else 3):
        p, tr = work.path("re.ndjson"), work.path("re-t.ndjson")
        scen.dump(sub, p)
        run_harness(binary, p, tr, len(sub))
        v = judge_for(work, prop, tr)[0]
        if v:
            n += 1
            old = trace_of(tr, sid)
            if k == 0 or not weak:
                return old
    if n == 0 and weak:
        log("not reproduced: %s %s: %s" % (prop, sid, why))
        return None
    return old


def replay(path):
    with open(path) as f:
        r = json.load(f)
    work = Work()
    try:
        binary = build()
        p, tr = work.path("re.ndjson"), work.path("re-t.ndjson")
        scen.dump(r["scenarios"], p)
        run_harness(binary, p, tr, len(r["scenarios"]))
        v = judge_for(work, r["property"], tr)[0]
        for l in open(tr):
            log(l.rstrip()[:300])
        for x in v:
            log("VIOL", *x)
        return 1 if v else 0
    finally:
        work.close()


def main(args):
    try:
        if args[:1] == ["setup"]:
            build()
            return 0
        if args[:1] == ["replay"]:
            return replay(args[1])
        prop, tier = args[0], args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
        return run(prop, tier)
    except ToolError as e:
        log("TOOL ERROR: %s" % e)
        return 2
