"""Scenarios for the harness: what the application and the broker do.

Nothing here says what the client ought to do; that is decided by the TLA+
observer (spec/RuqObs.tla) on the recorded trace.  A family is a function
(ctx, n) -> list of scenarios, n being how many the tier asks for.
"""
import json
import random

CONNACK = [32, 3, 0, 0, 0]
PONG = [208, 0]


# ---------------------------------------------------------------- bytes
def rle(x):
    """anything -> run list"""
    out = []

    def add(b, n):
        if n:
            if out and out[-1][0] == b:
                out[-1][1] += n
            else:
                out.append([b, n])
    if isinstance(x, str):
        x = x.encode()
    for r in x:
        if isinstance(r, (list, tuple)):
            add(r[0], r[1])
        else:
            add(r, 1)
    return out


def rlen(x):
    return sum(r[1] for r in rle(x))


def cat(*xs):
    return rle([r for x in xs for r in rle(x)])


def u16(n):
    return [n >> 8, n & 255]


def vbi(n):
    o = []
    while True:
        b = n % 128
        n //= 128
        o.append(b | (128 if n else 0))
        if not n:
            return o


def frame(first, body):
    return cat([first], vbi(rlen(body)), body)


def mstr(s):
    return cat(u16(rlen(s)), s)


def props_enc(ps):
    ids = {"pfi": 1, "mei": 2, "rt": 8, "cd": 9, "up": 38, "rs": 31}
    b = []
    for k, a, c in ps:
        b = cat(b, [ids[k]], a if k in ("pfi", "mei") else cat(mstr(a), mstr(c)) if k == "up" else mstr(a))
    return cat(vbi(rlen(b)), b)


def publish(topic="t", pl="m", qos=0, pid=1, dup=0, retain=0, props=()):
    return frame(0x30 | dup << 3 | qos << 1 | retain,
                 cat(mstr(topic), u16(pid) if qos else [], props_enc(props), pl))


def puback(pid, form=0, rc=0):
    return frame(0x40, cat(u16(pid), [] if form == 0 else [rc] if form == 1 else [rc, 0]))


def suback(pid, rc=1, ty=9):
    return frame(ty << 4, cat(u16(pid), [0], [rc]))


def sdisc(rc=0, form=1):
    return frame(0xE0, [] if form == 0 else [rc] if form == 1 else [rc, 0])


# ---------------------------------------------------------------- acts
def send(*fs, **kw):
    return dict(a="send", d=cat(*fs), **kw)


def pub(topic="t", pl="x", qos=0, **kw):
    return dict(a="call", op="pub", topic=topic if isinstance(topic, str) else rle(topic),
                pl=pl if isinstance(pl, str) else rle(pl), qos=qos, **kw)


def sub(topic="t", qos=1, **kw):
    return dict(a="call", op="sub", topic=topic if isinstance(topic, str) else rle(topic), qos=qos, **kw)


def unsub(topic="t", **kw):
    return dict(a="call", op="unsub", topic=topic if isinstance(topic, str) else rle(topic), **kw)


def disc(**kw):
    return dict(a="call", op="disc", **kw)


def A(name, **kw):
    return dict(a=name, **kw)


RUN = A("run")
UP = [RUN, send(CONNACK)]


def nr(x):
    return dict(x, nr=1)


class Ctx:
    """seeded randomness, and material produced by TLC"""

    def __init__(self, seed, tier, sched=None, wire=None):
        self.seed, self.tier = seed, tier
        self.sched = sched or {}      # flavour -> (acts lists, packets, commands)
        self.wire = wire or []        # [{d, v, ty, good}]

    def rng(self, fam):
        return random.Random("%s/%s/%s" % (self.seed, self.tier, fam))


FAMS = {}


def family(f):
    FAMS[f.__name__] = f
    return f


def reasons(acts, rng):
    """some acknowledgements say that the request failed"""
    out = []
    for x in acts:
        if x["a"] == "ack" and "rc" not in x and rng.random() < .3:
            x = dict(x, rc=rng.choice([0, 128, 131, 135, 145, 151]), form=rng.choice([1, 1, 2]))
        out.append(x)
    return out


def S(fam, i, acts, rng=None, **kw):
    if rng and fam != "memory":
        acts = reasons(acts, random.Random("%s/%d" % (fam, rng.randrange(1 << 30))))
    return dict(id="%s.%d" % (fam, i), seed=rng.randrange(1 << 30) if rng else 1, acts=acts, **kw)


# ------------------------------------------- behaviours of the TLA+ model
def from_model(acts, pkts, cmds, idmap=None):
    out = []
    for a in acts:
        k = a[0]
        if k == "run":
            out.append(RUN)
        elif k == "pkt":
            d = pkts[a[1]]
            if idmap:
                d = idmap(a[1], d)
            out.append(A("send", d=d, nr=1))
        elif k == "call":
            c = cmds[a[1]]
            x = dict(a="call", op=c["k"], nr=1)
            if c["k"] != "disc":
                x["topic"] = c["topic"]
                x["qos"] = c["qos"]
            if c["k"] == "pub":
                x["pl"] = c["pl"]
            out.append(x)
        elif k == "end":
            if a[1] == "mid":
                out.append(A("send", d=[[64, 1]], nr=1))
            out.append(A("fin" if a[1] == "mid" else a[1], nr=1))
        elif k == "adv":
            # the model's keep-alive is 1000
            out.append(A("adv", ms=a[1] * 8))
        elif k in ("hold", "drain", "dropall", "droprx", "kill"):
            out.append(A(k, nr=1))
        else:
            raise ValueError(a)
    return fix_adv(out + [RUN])


def fix_adv(acts):
    """a batch is run before time passes"""
    out = []
    for x in acts:
        if x["a"] == "adv" and out and out[-1].get("nr"):
            out.append(RUN)
        out.append(x)
    return out


def sched(flavour, seeds=2, pre=None):
    def f(ctx, n):
        fam = "model-%s%s" % (flavour, "-" + pre if pre else "")
        rng = ctx.rng(fam)
        al, pkts, cmds = ctx.sched[flavour]
        al = list(al)
        rng.shuffle(al)
        out = []
        for i, a in enumerate(al[:n]):
            for k in range(seeds):
                acts = from_model(a, pkts, cmds)
                if pre == "full":
                    # the channel is full but for one place (NoteCap = 1)
                    acts = scaled(acts)
                out.append(S(fam, i * seeds + k, acts, rng, lazy=True))
        return out
    return f


def scaled(acts):
    """NoteCap = 1 in the model: fill the real channel up to that"""
    out = []
    done = False
    for x in acts:
        if x["a"] == "hold" and not done and any(y["a"] == "send" for y in out):
            out += [RUN, x, send(*[publish("fill", str(i)) for i in range(99)])]
            done = True
        else:
            out.append(x)
    return fix_adv(out)


# ------------------------------------------------------ packets by TLC
@family
def wire_good(ctx, n):
    """chains of well-formed packets; the last may end the connection"""
    rng = ctx.rng("wire_good")
    ok = [w for w in ctx.wire if w["v"] == "ok"]
    mid = [w["d"] for w in ok if w["ty"] in (3, 4, 9, 11)]
    conn = [w["d"] for w in ok if w["ty"] == 2]
    end = [w["d"] for w in ok if w["ty"] == 14]
    rng.shuffle(mid)
    rng.shuffle(conn)
    rng.shuffle(end)
    out = []
    size = 12
    chunks = [mid[i:i + size] for i in range(0, len(mid), size)]
    for i in range(n):
        c = conn[i % len(conn)]
        acts = [RUN, send(c)]
        ch = chunks[i % len(chunks)]
        if i % 3 == 0:
            acts.append(send(*ch))
        else:
            acts += [send(x, nr=1) if rng.random() < .5 else send(x) for x in ch]
        e = rng.random()
        acts.append(send(end[i % len(end)]) if e < .6 else A("fin") if e < .8 else RUN)
        out.append(S("wire_good", i, acts, rng))
    return out


@family
def wire_all_good(ctx, n):
    return wire_good(ctx, max(n, 1 + len([w for w in ctx.wire if w["v"] == "ok"]) // 12))


def bad_wire(fam, pick, first):
    def f(ctx, n):
        rng = ctx.rng(fam)
        bad = [w for w in ctx.wire if w["v"] == "bad" and pick(w)]
        rng.shuffle(bad)
        out = []
        for i, w in enumerate(bad[:n]):
            d = w["d"]
            after = rng.choice([[], publish("after", "z", qos=rng.choice([0, 1]), pid=9), PONG, CONNACK, suback(1)])
            if first:
                acts = [RUN] + ([pub("q", "early", 1)] if rng.random() < .4 else []) + [send(d, after)]
            else:
                before = rng.choice([[], publish("before", "y", qos=1, pid=7), publish("before", "y")])
                acts = list(UP) + ([pub("q", "w", 1, nr=1)] if rng.random() < .3 else []) + [send(before, d, after)]
            if rng.random() < .3:
                acts[-1]["cuts"] = [rng.randrange(1, max(2, rlen(acts[-1]["d"])))]
            if rng.random() < .5:
                acts.append(A(rng.choice(["fin", "fin", "close", "rst"])))
            out.append(S(fam, i, acts, rng))
        return out
    return f


FAMS["wire_bad"] = bad_wire("wire_bad", lambda w: True, False)
FAMS["wire_bad_first"] = bad_wire("wire_bad_first", lambda w: True, True)
FAMS["wire_bad_heads"] = bad_wire("wire_bad_heads", lambda w: w["ty"] in (0, 1, 5, 6, 7, 8, 10, 12, 15), False)
FAMS["wire_bad_disc"] = bad_wire("wire_bad_disc", lambda w: w["ty"] == 14, False)
FAMS["wire_bad_pub"] = bad_wire("wire_bad_pub", lambda w: w["ty"] == 3, False)
FAMS["wire_bad_conn"] = bad_wire("wire_bad_conn", lambda w: w["ty"] == 2, True)


@family
def wire_first(ctx, n):
    """anything well-formed as the first packet"""
    rng = ctx.rng("wire_first")
    ok = [w["d"] for w in ctx.wire if w["v"] == "ok"]
    con = [w["d"] for w in ctx.wire if w["v"] == "ok" and w["ty"] == 2]
    rng.shuffle(ok)
    rng.shuffle(con)
    out = []
    for i in range(n):
        d = ok[i % len(ok)] if i % 2 else con[(i // 2) % len(con)]
        acts = [RUN]
        if rng.random() < .5:
            acts.append(rng.choice([pub("q", "x", rng.choice([0, 1])), sub("s"), disc()]))
        acts.append(send(d, publish("m", "1", qos=1, pid=3) if rng.random() < .5 else []))
        acts.append(rng.choice([RUN, pub("later", "x", 1), A("fin")]))
        out.append(S("wire_first", i, acts, rng))
    return out


@family
def fuzz(ctx, n):
    """random bytes, and random changes of well-formed streams"""
    rng = ctx.rng("fuzz")
    ok = [w["d"] for w in ctx.wire if w["v"] == "ok" and w["ty"] != 14 and rlen(w["d"]) < 60]

    def flat(d):
        return [b for b, k in d for _ in range(k)]
    out = []
    for i in range(n):
        m = rng.random()
        pre = [] if m < .15 else flat(cat(*[rng.choice(ok) for _ in range(rng.randrange(3))]))
        s = rng.choice([flat(rng.choice(ok)), [rng.randrange(256) for _ in range(rng.randrange(1, 24))],
                        [rng.choice([0x20, 0x30, 0x32, 0x40, 0x90, 0xB0, 0xD0, 0xE0]), rng.randrange(12)] + [rng.randrange(8) for _ in range(rng.randrange(14))]])
        s = list(s)
        for _ in range(rng.choice([0, 1, 1, 2, 4])):
            j = rng.randrange(len(s))
            r = rng.random()
            if r < .5:
                s[j] = rng.choice([0, 1, 127, 128, 255, rng.randrange(256), s[j] ^ (1 << rng.randrange(8))])
            elif r < .7 and len(s) > 1:
                del s[j]
            elif r < .85:
                s.insert(j, rng.randrange(256))
            else:
                s = s[:j + 1]
        acts = ([RUN] if m < .15 else list(UP)) + [send(pre, s, **rng.choice([{}, {"each": 1}, {"cuts": [rng.randrange(1, len(s) + 1)]}]))]
        acts.append(rng.choice([RUN, A("fin"), A("fin"), A("close"), A("rst"), send(publish("x", "y"))]))
        out.append(S("fuzz", i, acts, rng))
    return out


# ------------------------------------------------------------- commands
TOPICS = ["a", "a/b/c", "ä€😀/x", "with space", "\"q\", {x}\\", "x" * 127, "x" * 128, "+/#", "$sys/1", "t\n2",
          "\ufeffa\ufeff", " a\t ", "AbCÄ//../", "\U0010ffff\uffff\ue000\ud7ff\u07ff", "\x01\x7f\x1b\x80\u2028\u202e", "e\u0301\u200d\ufffd%00?&"]
PAYLOADS = ["", "x", "hello", "ä€😀", "y" * 127, [[0, 1]], [[255, 3], [0, 2]], "z" * 300, "\"\\\n", "\ufeffx", " \r\n",
            [[b, 1] for b in range(256)]]


def rprops(rng, k=None):
    k = rng.choice([0, 0, 1, 2, 4]) if k is None else k
    o = []
    for _ in range(k):
        o.append(rng.choice([
            dict(k="mei", a=rng.choice([[rng.randrange(256) for _ in range(4)], [0] * 4, [255] * 4, [0, 0, 1, 0]])),
            dict(k="rt", a=rng.choice(["r", "re/ply", "ü", "r" * 130, "\ufeffr "])),
            dict(k="cd", a=rng.choice([[], [[0, 1]], [1, 2, 255], [[7, 200]], [[b, 1] for b in range(256)]])),
            dict(k="up", a=rng.choice(["k", "", "key", "ß" * 70, " K\ufeff"]), b=rng.choice(["v", "", "value", "w" * 129, "\ufeff\n\x01"]))]))
    return o


def rcall(rng, h=0, **kw):
    t = rng.choice(TOPICS)
    r = rng.random()
    if r < .25:
        return sub(t, rng.randrange(3), h=h, **kw)
    if r < .4:
        return unsub(t, h=h, **kw)
    pl = rng.choice(PAYLOADS)
    if rng.random() < .15:
        # the builder's methods in another order
        kw = dict(kw, qlast=rng.choice([1, 2, 3]))
    return pub(t, pl, rng.choice([0, 0, 1, 1, 2]), txt=isinstance(pl, str) and rng.random() < .5,
               props=rprops(rng), h=h, **kw)


# strings that are easily taken for one another
ALIKE = [["Aa", "BB"], ["ab", "ba"], ["AaAa", "BBBB", "AaBB", "BBAa"], ["abc", "acb", "bac", "cba"], ["p" * 40 + "1", "p" * 40 + "2"],
         ["1" + "s" * 40, "2" + "s" * 40], ["x", "X"], ["\u00e9", "e\u0301"], ["a/", "a", "/a"], ["a", "a\x01"], ["ad", "bc"], ["a b", "ab", "a  b"],
         ["k" * 20 + "1" + "k" * 20, "k" * 20 + "2" + "k" * 20], ["1", "01", "1.0"], ["\u0391", "A", "\u0410"], ["a+b", "a/b"], ["#", "+"], ["", "0"]]


def alike(rng, h=0):
    """commands in a row that differ in one string, or not at all"""
    s = rng.choice(ALIKE)
    one = rcall(rng, h)
    out = []
    for _ in range(rng.randrange(2, 6)):
        x = rng.choice(s)
        r = rng.random()
        if one["op"] != "pub" or r < .5:
            c = dict(one, topic=x)
        elif r < .7:
            c = dict(one, pl=x)
        elif r < .8:
            c = dict(one, props=[dict(k="up", a=x, b=rng.choice(s)) for _ in range(rng.randrange(1, 4))])
        elif r < .9:
            c = dict(one, props=[dict(k="rt", a=x), dict(k="cd", a=rng.choice(s))])
        else:
            c = dict(one, qos=rng.randrange(3))
        out.append(dict(c, nr=rng.randrange(2)))
    return out


@family
def calls(ctx, n):
    """commands of every kind, from several handles, in batches"""
    rng = ctx.rng("calls")
    out = []
    for i in range(n):
        acts = list(UP) if rng.random() < .8 else [RUN]
        hs = 1
        for _ in range(rng.randrange(4, 25)):
            r = rng.random()
            if r < .1 and hs < 4:
                acts.append(A("clone", h=rng.randrange(hs)))
                hs += 1
            elif r < .2:
                acts.append(A("ack", i=rng.randrange(3), new=rng.randrange(2), form=rng.randrange(3), nr=rng.randrange(2)))
            elif r < .22:
                acts.append(A("connect", h=rng.randrange(hs), nr=rng.randrange(2)))
            elif r < .3:
                acts.append(send(publish("in", "m", qos=rng.randrange(2), pid=rng.randrange(1, 9)), nr=rng.randrange(2)))
            elif r < .36:
                acts += alike(rng, rng.randrange(hs))
            else:
                acts.append(rcall(rng, rng.randrange(hs), nr=rng.randrange(2)))
        if acts[0:2] != UP:
            acts.append(send(CONNACK))
        if rng.random() < .4:
            acts.append(nr(disc()))
            if rng.random() < .5:
                acts.append(nr(rcall(rng)))
        acts.append(RUN)
        out.append(S("calls", i, acts, rng))
    return out


def pub_sizes(rem, qos, topic=1):
    """payload length for a given remaining length"""
    return rem - (2 + topic + (2 if qos else 0) + 1 + 2)


@family
def sizes_out(ctx, n):
    """outbound packets at every length-encoding boundary"""
    rng = ctx.rng("sizes_out")
    cases = []
    for b in (127, 128, 16383, 16384, 2097151, 2097152):
        for d in (-1, 0, 1):
            for q in (0, 1, 2):
                p = pub_sizes(b + d, q)
                cases.append(pub("t", [[120, p]], q, txt=bool((b + d + q) % 2)))
    for k in (0, 1, 127, 128, 255, 256, 16379, 16380, 16383, 65534, 65535):
        cases += [sub([[97, k]], 1), unsub([[98, k]]), pub([[99, k]], "x", 1)]
        if k:
            cases.append(pub([[195, 1], [164, 1]] * min(k, 60), "x", 0))
    # the property length at its boundaries: 2 bytes of pfi + 3 + n (rt), 5 + a + b (up)
    for b in (127, 128, 16383, 16384):
        for d in (-1, 0, 1):
            cases.append(pub("t", "x", 1, props=[dict(k="rt", a=[[114, b + d - 5]])]))
            cases.append(pub("t", "x", 0, props=[dict(k="cd", a=[[0, b + d - 5]])]))
            cases.append(pub("t", "x", 0, props=[dict(k="up", a=[[117, (b + d - 7) // 2]], b=[[118, b + d - 7 - (b + d - 7) // 2]])]))
    for k in (0, 1, 65535):
        cases.append(pub("t", "x", 1, props=[dict(k="rt", a=[[114, k]])]))
        cases.append(pub("t", "x", 1, props=[dict(k="cd", a=[[114, k]])]))
        cases.append(pub("t", "x", 1, props=[dict(k="up", a=[[114, k]], b="")]))
        cases.append(pub("t", "x", 1, props=[dict(k="up", a="", b=[[114, k]])]))
    # properties adding up beyond three length bytes
    cases.append(pub("t", "x", 0, props=[dict(k="up", a=[[117, 65535]], b=[[118, 65535]])] * 16))
    cases.append(pub("t", "x", 0, props=[dict(k="mei", a=[0, 0, 0, 0]), dict(k="mei", a=[255, 255, 255, 255]), dict(k="mei", a=[1, 2, 3, 4])]))
    for op in range(3):
        cases.append(sub("q%d" % op, op))
    rng.shuffle(cases)
    out = []
    for i in range(0, min(n, len(cases)), 8):
        acts = list(UP)
        for c in cases[i:i + 8]:
            acts.append(dict(c, nr=rng.randrange(2)))
            if rng.random() < .3:
                acts.append(A("ack", i=0))
        out.append(S("sizes_out", i, acts + [RUN], rng))
    return out


MAXREM = 268435455


@family
def huge_out(ctx, n):
    """at and beyond the largest packet; n = 1: only beyond, which costs nothing"""
    rng = ctx.rng("huge_out")
    out = []
    over = [pub("t", [[120, pub_sizes(MAXREM + 1, 1)]], 1), pub("t", [[120, MAXREM]], 0), pub("t", [[120, pub_sizes(MAXREM + 1, 0)]], 0, txt=True)]
    out.append(S("huge_out", 0, UP + [pub("a", "1", 1)] + [over[rng.randrange(3)]] + [pub("a", "2", 1), A("ack", i=0)], rng))
    if n > 1:
        q = rng.randrange(2)
        out.append(S("huge_out", 1, UP + [pub("a", "1", 1), pub("t", [[120, pub_sizes(MAXREM, q)]], q), pub("a", "2", 1)], rng))
    if n > 2:
        for k, o in enumerate(over):
            out.append(S("huge_out", 2 + k, UP + [nr(pub("a", "1", 1)), nr(o), pub("a", "2", 1)], rng))
        out.append(S("huge_out", 5, UP + [pub("t", [[120, pub_sizes(MAXREM - 1, 1 - q)]], 1 - q), sub("s")], rng))
    return out


@family
def toolong(ctx, n):
    """arguments just beyond and at the limit"""
    rng = ctx.rng("toolong")
    L = 65535

    def args(k):
        return [pub([[97, k]], "x", rng.randrange(3)), sub([[97, k]]), unsub([[97, k]]),
                pub("t", "x", 1, props=[dict(k="rt", a=[[114, k]])]),
                pub("t", "x", 0, props=[dict(k="cd", a=[[0, k]])]),
                pub("t", "x", 1, props=[dict(k="up", a=[[117, k]], b="v")]),
                pub("t", "x", 1, props=[dict(k="up", a="k", b=[[117, k]])]),
                pub("t", "x", 0, props=rprops(rng, 2) + [dict(k="up", a="k", b=[[117, k]])] + rprops(rng, 1)),
                # characters of several bytes: fewer characters than bytes
                pub([[195, 1], [164, 1]] * 3 + [[97, k - 6]], "x", 0),
                sub([[97, k - 3], [226, 1], [130, 1], [172, 1]])]
    out = []
    for i in range(n):
        acts = list(UP) if rng.random() < .8 else [RUN]
        for _ in range(rng.randrange(3, 9)):
            r = rng.random()
            k = L + rng.choice([1, 1, 2, 64, 65536, 65535]) if r < .55 else L
            acts.append(dict(rng.choice(args(k)) if r < .8 else rcall(rng), nr=rng.randrange(2)))
            if rng.random() < .2:
                acts.append(A("ack", i=0))
        if len(acts[1]) and acts[1].get("d") != rle(CONNACK):
            acts.append(send(CONNACK))
        out.append(S("toolong", i, acts + [RUN, pub("last", "x", 1)], rng))
    return out


# ---------------------------------------------------------- identifiers
@family
def ids(ctx, n):
    """histories of requests and acknowledgements in any order"""
    rng = ctx.rng("ids")
    out = []
    for i in range(n):
        acts = list(UP)
        for _ in range(rng.randrange(10, 40)):
            r = rng.random()
            if r < .5:
                acts.append(rcall(rng, nr=rng.randrange(2)))
            elif r < .8:
                acts.append(A("ack", i=rng.randrange(6), new=rng.randrange(2), form=rng.randrange(3),
                              rc=rng.choice([0, 0, 16, 128, 151]) if rng.random() < .3 else 0))
                if acts[-1]["rc"] in (16,):
                    acts[-1]["rc"] = 0
            elif r < .88:
                acts.append(A("reack"))
            else:
                pid = rng.choice([1, 2, 3, 4, 5, 9, 100, 65534, 65535])
                acts.append(send(rng.choice([puback(pid), suback(pid), suback(pid, 0, 11)])))
        out.append(S("ids", i, acts + [RUN], rng))
    return out


def free_pattern(rng, lo, hi, k):
    """k ranges inside lo..hi in a random order"""
    cuts = sorted(rng.sample(range(lo, hi), 2 * k))
    rs = [[cuts[2 * j], cuts[2 * j + 1]] for j in range(k)]
    rng.shuffle(rs)
    return rs


@family
def exhaust(ctx, n):
    """all identifiers in flight, then acknowledgements in patterns"""
    rng = ctx.rng("exhaust")
    out = []
    for i in range(n):
        acts = list(UP) + [A("flood", n=65535)]
        m = i % 4
        if m == 0:
            acts += [pub("w", "1", 1), sub("w2"), pub("w3", "q0", 0), send(publish("in", "m", qos=1, pid=5)),
                     A("adv", ms=8000), A("pong"), A("adv", ms=16000, step=4000, pong=1), A("acks", r=[[77, 77]]), A("acks", r=[[3, 3], [2, 2]]), unsub("u")]
        elif m == 1:
            acts += [A("acks", r=free_pattern(rng, 1, 65535, rng.randrange(2, 40))), A("flood", n=rng.randrange(100, 20000))]
            acts += [pub("x", "y", 1), A("acks", r=[[65535, 65535]]), A("acks", r=[[1, 1]]), sub("z"), sub("z2")]
        elif m == 2:
            acts += [A("acks", r=[[65535, 65535]]), pub("last", "1", 1), A("acks", r=[[1, 1]]), pub("first", "1", 1),
                     A("acks", r=[[65535, 65535], [1, 1]]), sub("b"), sub("c"), pub("wait", "1", 1), send(puback(40000)), A("reack")]
        else:
            acts += [nr(pub("w", "1", 1)), nr(disc()), RUN, send(publish("in", "m")), A("acks", r=[[rng.randrange(1, 65536)] * 2])]
        out.append(S("exhaust", i, acts, rng))
    return out


@family
def ackforms(ctx, n):
    """all identifiers in flight; then again and again a command waits, and
    one request is acknowledged in one of all the ways there are"""
    rng = ctx.rng("ackforms")
    forms = [w["d"] for w in ctx.wire if w["v"] == "ok" and w["ty"] in (4, 9, 11) and rlen(w["d"]) < 100]
    rng.shuffle(forms)
    one = {4: pub("t", "x", 1), 9: sub("s"), 11: unsub("u")}
    size = 40
    out = []
    for i in range(n):
        acts = list(UP) + [A("flood", n=65532)] + [one[t] for t in (4, 9, 11)]
        at = {4: 65533, 9: 65534, 11: 65535}
        for f in [forms[(i * size + k) % len(forms)] for k in range(size)]:
            flat = [b for b, k in f for _ in range(k)]
            ty = flat[0] >> 4
            acts.append(dict(one[ty], nr=rng.randrange(2)))
            acts.append(send(flat[:2] + u16(at[ty]) + flat[4:]))
        out.append(S("ackforms", i, acts + [RUN], rng))
    return out


@family
def recycle(ctx, n):
    """many more requests than there are identifiers"""
    rng = ctx.rng("recycle")
    out = []
    for i in range(n):
        acts = list(UP)
        step = rng.choice([20000, 30000, 33000])
        for k in range(5):
            acts += [A("flood", n=step, qos=1), rcall(rng)]
            acts += [A("acks", r=[[1, 65535]] if k % 2 else free_pattern(rng, 1, 65535, rng.randrange(2, 30)) + [[1, 30000]])]
        out.append(S("recycle", i, acts + [RUN], rng))
    return out


@family
def idtour(ctx, n):
    """long walks of allocations and acknowledgements over five identifiers,
    all others in flight (a walk visits every subset of the five many times)"""
    rng = ctx.rng("idtour")
    out = []
    # every edge of the allocator model's state graph, embedded in the real range
    tour = getattr(ctx, "tour", None)
    for w, walk in enumerate(tour["walks"] if tour else []):
        k = tour["max"]
        for i, x in enumerate([65535 - k, [0, 31000][w % 2]] if ctx.tier == "quick" else [65535 - k, 0, 31000]):
            acts = list(UP)
            if x + k == 65535:
                acts.append(A("flood", n=x))
            else:
                acts += [A("flood", n=65535)] + [send(puback(x + j)) for j in range(k, 0, -1)]
            acts += [rng.choice([pub("t", "x", 1), sub("s")]) if o == 0 else send(rng.choice([puback(x + o), suback(x + o)])) for o in walk]
            out.append(S("idtour", 1000 + w * 10 + i, acts, rng))
    for i in range(n):
        base = [65530, 0, 30000, 65530][i % 4]
        acts = list(UP)
        if base == 65530 and i % 8 < 4:
            acts.append(A("flood", n=65530))
        else:
            acts.append(A("flood", n=65535))
        waiting = 0
        for k in range(200):
            r = rng.random()
            if r < .45 and waiting < 20:
                acts.append(rng.choice([pub("t", "x", 1), pub("t", "x", 1), sub("s"), unsub("u")]))
                waiting += 1
            else:
                j = base + rng.randrange(1, 6)
                acts.append(send(rng.choice([puback(j), puback(j), suback(j), suback(j, 0, 11), cat(puback(j), puback(j))])))
                waiting = max(0, waiting - 1)
        out.append(S("idtour", i, acts + [RUN], rng))
    return out


# ------------------------------------------------- messages, slow consumers
def rmsg(rng, k):
    q = rng.choice([0, 1, 1])
    return publish(rng.choice(["a", "b/c", "ü"]), "m%d" % k, qos=q, pid=rng.choice([1, 1, 2, 300, 65535, k % 65535 + 1]),
                   dup=q and rng.randrange(2), retain=rng.randrange(2), props=rmsgprops(rng))


def rmsgprops(rng):
    ps = [("pfi", [rng.randrange(2)], ""), ("mei", [0, 0, 0, 9], ""), ("rt", "r", ""), ("cd", rng.choice(["", "c", "cd"]), ""), ("up", "k", "v"), ("up", "k", "w")]
    return rng.sample(ps, rng.choice([0, 0, 1, 1, 2, 3, 6]))


@family
def inbound(ctx, n):
    rng = ctx.rng("inbound")
    out = []
    for i in range(n):
        acts = list(UP)
        last = None
        for k in range(rng.randrange(3, 20)):
            r = rng.random()
            if r < .15 and last:
                # redelivered
                d = [list(x) for x in last]
                if d[0][0] & 0xF6 == 0x32:
                    d = cat([d[0][0] | 8], d[1:] if d[0][1] == 1 else [[d[0][0], d[0][1] - 1]] + d[1:])
                acts.append(send(d, nr=rng.randrange(2)))
            elif r < .25:
                acts.append(send(rng.choice([suback(rng.randrange(1, 5)), suback(rng.randrange(1, 5), 0, 11), puback(rng.randrange(1, 5)), PONG]), nr=rng.randrange(2)))
            elif r < .4:
                acts.append(rcall(rng, nr=rng.randrange(2)))
            elif r < .48:
                s = rng.choice(ALIKE)
                q = rng.randrange(2)
                acts.append(send(*[publish(rng.choice(s), rng.choice(["x", rng.choice(s)]), q, rng.choice([7, 7, 8]), dup=q and rng.randrange(2),
                                           props=[("up", rng.choice(s), rng.choice(s))] if rng.random() < .3 else [])
                                   for _ in range(rng.randrange(2, 6))], nr=rng.randrange(2)))
            else:
                ms = [rmsg(rng, k * 10 + j) for j in range(rng.choice([1, 1, 2, 5]))]
                last = ms[-1]
                acts.append(send(*ms, nr=rng.randrange(2)))
        acts.append(rng.choice([RUN, RUN, A("fin"), send(sdisc()), send(sdisc(139)), nr(disc())]))
        out.append(S("inbound", i, acts + [RUN], rng))
    return out


@family
def slow(ctx, n):
    """a consumer that stops taking notifications"""
    rng = ctx.rng("slow")
    out = []
    for i in range(n):
        acts = list(UP) if rng.random() < .8 else [RUN, A("hold"), send(CONNACK)]
        acts.append(A("hold"))
        for j in range(rng.randrange(1, 5)):
            ms = [rmsg(rng, j * 100 + k) for k in range(rng.choice([1, 30, 90, 98, 99, 100, 101, 102, 103, 150, 210]))]
            acts.append(send(*ms, nr=rng.randrange(2)))
            for _ in range(rng.randrange(3)):
                acts.append(rcall(rng, nr=rng.randrange(2)))
            r = rng.random()
            if r < .35:
                acts.append(A("take", n=rng.choice([1, 2, 50, 101, 150])))
            elif r < .5:
                acts += [A("drain"), RUN, A("hold")]
            elif r < .6:
                acts.append(send(suback(1), suback(2, 0, 11)))
        r = rng.random()
        if r < .25:
            acts += [nr(A("fin"))]
        elif r < .4:
            acts += [send(sdisc(rng.choice([0, 139])), nr=1)]
        elif r < .5:
            acts += [nr(disc()), nr(rcall(rng))]
        acts.append(A("drain"))
        acts.append(send(publish("end", "e", qos=1, pid=1)))
        acts.append(rcall(rng))
        out.append(S("slow", i, acts, rng))
    return out


@family
def slow_edge(ctx, n):
    """exactly around the number of notifications the loop runs ahead"""
    rng = ctx.rng("slow_edge")
    out = []
    for i, k in enumerate([98, 99, 100, 101, 102, 103, 104][:n]):
        acts = list(UP) + [A("hold"), send(*[publish("m", str(j), qos=j % 2, pid=j + 1) for j in range(k)]),
                           pub("cmd", "x", 1), send(publish("one", "more", qos=1, pid=999)), A("take", n=1),
                           send(publish("and", "more", qos=1, pid=1000)), A("drain"), pub("cmd2", "x", 1)]
        out.append(S("slow_edge", i, acts, rng))
    return out


@family
def sizes_in(ctx, n):
    """inbound packets at every length boundary, and large ones"""
    rng = ctx.rng("sizes_in")
    cases = []
    for b in (127, 128, 16383, 16384, 2097151, 2097152):
        for d in (-1, 0, 1):
            for q in (0, 1):
                p = b + d - (2 + 1 + (2 if q else 0) + 1)
                cases.append(publish("t", [[109, p]], q, 5))
    for k in (127, 128, 16383, 16384, 65534, 65535):
        cases.append(publish([[116, k]], "x", 1, 3))
        cases.append(publish("t", "x", 1, 3, props=(("up", [[107, k]], "v"),)))
        cases.append(publish("t", "x", 0, 3, props=(("rt", [[107, k]], ""), ("cd", [[0, k]], ""))))
    for b in (127, 128, 16383, 16384):
        for d in (-1, 0, 1):
            cases.append(publish("t", "x", 1, 3, props=(("rt", [[107, b + d - 3]], ""),)))
            cases.append(frame(0x90, cat(u16(1), props_enc((("rs", [[107, b + d - 3]], ""),)), [1])))
    cases.append(frame(0x90, cat(u16(1), props_enc((("up", [[107, 65535]], [[118, 65535]]),) * 17), [1])))
    rng.shuffle(cases)
    out = []
    for i in range(0, min(n, len(cases)), 6):
        acts = list(UP)
        for c in cases[i:i + 6]:
            # large packets leave the harness in pieces anyway; cut some at odd places
            acts.append(send(c, cuts=[rng.choice([1, 2, 3, 4, 5, 6, 100])] if rng.random() < .5 else []))
        out.append(S("sizes_in", i, acts + [send(publish("end", "x", 1, 1))], rng))
    return out


# ------------------------------------------------------------- text
CHARS = ["\U0001F600", "\u20ac", "\u00e4", "\u0800", "\uffff", "\U0010ffff", "\u007f", "\t", "\"", "\\", "\u0301", "\u2028", "\ufeff", "\u200b", "a"]


def text(rng, off, size):
    """characters of several bytes, so that every position is inside one for some off"""
    c = rng.choice(CHARS[:3] * 6 + CHARS)
    if rng.random() < .3:
        return "a" * off + "".join(rng.choice(CHARS) for _ in range(size // 3))
    return "a" * off + c * (size // len(c.encode()))


@family
def text_in(ctx, n):
    """long strings of characters of several bytes, in every field that has text"""
    rng = ctx.rng("text_in")
    out = []
    for i in range(n):
        acts = list(UP) if i % 8 else [RUN, send(frame(0x20, cat([0, 0], props_enc([("rs", text(rng, i // 8 % 4, 300), ""), ("up", text(rng, 1, 100), text(rng, 2, 100))]))))]
        for k in range(4):
            t = "\U0001F600" if i % 2 else "\u20ac"
            s = "a" * k + t * (rng.choice([40, 70, 150, 400]) // len(t.encode())) if i % 3 < 2 else text(rng, k, 300)
            where = (i // 3 + k) % 8
            z = lambda: text(rng, rng.randrange(4), rng.choice([10, 70]))
            if where == 0:
                f = publish(s, "m", 1, 3)
            elif where == 1:
                f = publish("t", s, k % 2, 3, props=[("pfi", [1], "")])
            elif where == 2:
                f = publish("t", s, k % 2, 3)
            elif where == 3:
                f = publish("t", "m", 1, 3, props=[("rt", s, ""), ("up", z(), z())])
            elif where == 4:
                f = publish("t", "m", 0, 3, props=[("up", s, z()), ("up", z(), s)])
            elif where == 5:
                f = frame(0x90, cat(u16(3), props_enc([("rs", s, ""), ("up", z(), s)]), [1]))
            elif where == 6:
                f = frame(0xB0, cat(u16(3), props_enc([("up", s, z()), ("rs", s, "")]), [0]))
            else:
                f = frame(0x40, cat(u16(3), [16], props_enc([("rs", s, ""), ("up", s, z())])))
            acts.append(send(f, nr=rng.randrange(2)))
        acts.append(send(frame(0xE0, cat([rng.choice([0, 139])], props_enc([("rs", text(rng, i % 4, 200), "")])))) if i % 4 == 1 else RUN)
        out.append(S("text_in", i, acts, rng))
    return out


@family
def text_out(ctx, n):
    """the same in commands"""
    rng = ctx.rng("text_out")
    out = []
    for i in range(n):
        acts = list(UP)
        for k in range(4):
            t = "\U0001F600" if i % 2 else "\u20ac"
            s = "a" * k + t * (rng.choice([40, 70, 150, 400]) // len(t.encode())) if i % 3 < 2 else text(rng, k, 300)
            z = text(rng, rng.randrange(4), rng.choice([10, 70]))
            where = (i // 3 + k) % 6
            acts.append(dict([pub(s, "m", 1), pub("t", s, k % 2, txt=bool(i % 2)), sub(s), unsub(s),
                              pub("t", "m", 1, props=[dict(k="rt", a=s)]), pub("t", "m", 0, props=[dict(k="up", a=s, b=z), dict(k="up", a=z, b=s)])][where],
                             nr=rng.randrange(2)))
        out.append(S("text_out", i, acts + [RUN], rng))
    return out


# --------------------------------------------------------- segmentation
@family
def cuts(ctx, n):
    """the same stream cut up in different ways (groups)"""
    rng = ctx.rng("cuts")
    ok = [w["d"] for w in ctx.wire if w["v"] == "ok" and w["ty"] in (3, 4, 9, 11) and rlen(w["d"]) < 200]
    bad = [w["d"] for w in ctx.wire if w["v"] == "bad" and w["ty"] != 2]
    out = []
    for g in range(n):
        fs = [rng.choice(ok) for _ in range(rng.randrange(1, 6))]
        kind = rng.random()
        if kind < .3:
            fs.append(rng.choice(bad))
            fs.append(publish("after", "x"))
        elif kind < .5:
            fs.append(sdisc(rng.choice([0, 139])))
        elif kind < .6:
            fs.append(publish("big", [[98, rng.choice([130, 5000, 20000])]], 1, 2))
            fs.append(PONG)
        whole = cat(CONNACK, *fs)
        size = rlen(whole)
        end = [A("fin")] if rng.random() < .5 else []
        if end and rng.random() < .3:
            whole = cat(whole, [0x32, 9, 0])
            size += 3
        vs = [dict(), dict(each=1) if size < 400 else dict(each=97)]
        vs.append(dict(cuts=sorted_cuts(rng, size, 1)))
        vs.append(dict(cuts=sorted_cuts(rng, size, rng.randrange(2, 9))))
        # between the header and the body, one byte before the end
        vs.append(dict(cuts=[5 + rng.choice([1, 2, 3])]))
        vs.append(dict(cuts=[size - 1]))
        for k, v in enumerate(vs):
            out.append(S("cuts", g * 10 + k, [RUN, A("send", d=whole, **v)] + end, rng, grp="g%d" % g))
    return out


def head_cuts(fs):
    """cuts after 1, 2, ... bytes of the first byte and length field of each packet"""
    flat, pos = [], 0
    for f in fs:
        n = rlen(f)
        h = 1 + len(vbi(n - 2 if n < 130 else n - 3 if n < 16387 else n - 4 if n < 2097156 else n - 5))
        flat.append((pos, h))
        pos += n
    out = []
    for k in (1, 2, 3, 4, 5):
        at = sorted({p + k for p, h in flat if k <= h})
        if at:
            out.append([b - a for a, b in zip([0] + at, at)])
    return out


@family
def cuts_head(ctx, n):
    """streams with packets of every length-field size, cut inside the length fields"""
    rng = ctx.rng("cuts_head")
    out = []
    for g in range(n):
        sz = [rng.choice([1, 60, 127 - 6, 128 - 6]), rng.choice([200, 5000, 16383 - 6, 16384 - 6])]
        if g % 2 == 0:
            sz.append(rng.choice([20000, 100000, 2097151 - 6]))
        if g % 3 == 0:
            sz.append(rng.choice([2097152 - 6, 2200000]))
        fs = [publish("big", [[98 + i, k]], 1, i + 2) for i, k in enumerate(sz)] + [publish("after", "x", 1, 99)]
        rng.shuffle(fs)
        whole = cat(CONNACK, *fs)
        vs = [[]] + head_cuts([CONNACK] + fs)
        for k, v in enumerate(vs):
            out.append(S("cuts_head", g * 10 + k, [RUN, A("send", d=whole, cuts=v), send(PONG)], rng, grp="h%d" % g))
    return out


def sorted_cuts(rng, size, k):
    p = sorted(rng.sample(range(1, size), min(k, size - 1)))
    return [b - a for a, b in zip([0] + p, p)]


# -------------------------------------------------------------- the clock
@family
def ping(ctx, n):
    rng = ctx.rng("ping")
    out = []
    for i in range(n):
        acts = list(UP)
        m = i % 6
        if i % 8 in (3, 6):
            # with many requests in flight
            acts.append(A("flood", n=rng.choice([3, 70, 300, 1100, 5000])))
        if m == 0:
            # answered at once, for a long time
            acts.append(A("adv", ms=8000 * rng.randrange(3, 12), step=rng.choice([500, 1000, 2000, 8000]), pong=1))
            acts.append(A("adv", ms=20000, step=1000))
        elif m == 1:
            # answered late, but in time
            for _ in range(rng.randrange(2, 6)):
                acts += [A("adv", ms=8000, step=rng.choice([1000, 4000, 8000])), A("adv", ms=rng.choice([100, 4000, 7000, 7900]), step=1000), A("pong")]
                rest = 8000 - acts[-2]["ms"]
                acts.append(A("adv", ms=rest, step=1000))
                acts.append(A("pong"))
                acts.append(A("adv", ms=8000, step=2000))
                acts.append(A("pong"))
        elif m == 2:
            # never answered, with other traffic
            for _ in range(rng.randrange(20, 40)):
                acts += [A("adv", ms=rng.choice([250, 500, 1000])), rng.choice([send(rmsg(rng, 1)), rcall(rng), A("ack", i=0), RUN])]
        elif m == 3:
            # answered for a while, then not
            acts.append(A("adv", ms=8000 * rng.randrange(1, 4), step=1000, pong=1))
            acts.append(A("adv", ms=rng.choice([7000, 8000])))
            acts += [A("adv", ms=rng.choice([1000, 500]), step=500), pub("x", "y", 1), A("adv", ms=30000, step=1000)]
        elif m == 4:
            # a long wait for the CONNACK
            acts = [RUN, pub("q", "w", 1), A("adv", ms=rng.choice([8000, 20000, 100000]), step=8000), send(CONNACK),
                    A("adv", ms=24000, step=1000, pong=1), A("adv", ms=17000, step=1000)]
        else:
            # busy and answered
            for k in range(rng.randrange(30, 60)):
                acts += [A("adv", ms=rng.choice([500, 1000]), step=500, pong=1), rng.choice([send(rmsg(rng, k)), rcall(rng), A("ack", i=0), RUN])]
        out.append(S("ping", i, acts, rng))
    return out


@family
def ping_edge(ctx, n):
    """the answer just before the next ping is due, and unasked answers"""
    rng = ctx.rng("ping_edge")
    out = []
    for i in range(n):
        acts = list(UP)
        for _ in range(4):
            acts += [A("adv", ms=8000)] if i % 2 else [A("adv", ms=7990), A("adv", ms=10)]
            if i % 3 == 0:
                acts += [A("adv", ms=7990), A("pong"), A("adv", ms=10)]
                acts += [A("pong")]
            elif i % 3 == 1:
                acts += [A("pong"), A("pong"), A("pong")]
            else:
                acts += [A("pong")]
        acts += [A("adv", ms=8000), A("adv", ms=7000), A("adv", ms=1000), A("adv", ms=1000)]
        out.append(S("ping_edge", i, acts, rng))
    return out


# ------------------------------------------------------ ends of connections
@family
def ends(ctx, n):
    rng = ctx.rng("ends")
    ok = [w["d"] for w in ctx.wire if w["v"] == "ok" and w["ty"] in (3, 4, 9, 11) and rlen(w["d"]) < 60]
    dis = [w["d"] for w in ctx.wire if w["v"] == "ok" and w["ty"] == 14]
    out = []
    for i in range(n):
        acts = list(UP)
        for _ in range(rng.randrange(0, 4)):
            acts.append(rng.choice([rcall(rng), send(rmsg(rng, 1)), A("ack", i=0)]))
        fs = [rng.choice(ok) for _ in range(rng.randrange(0, 4))]
        if rng.random() < .35:
            acts.append(nr(rcall(rng)))
        r = rng.random()
        if r < .3:
            w = cat(*fs, dis[i % len(dis)])
            if rng.random() < .3:
                w = cat(w, publish("after", "x", 1, 4))
            acts.append(send(w, nr=rng.randrange(2)))
            if rng.random() < .5:
                acts.append(A(rng.choice(["fin", "fin", "close", "rst"])))
        elif r < .75:
            w = cat(*fs, publish("cut", "short", 1, 4))
            k = rng.randrange(0, rlen(w) + 1)
            flat = [b for b, c in w for _ in range(c)][:k]
            if flat:
                acts.append(send(flat, nr=rng.randrange(2)))
            acts.append(A("fin" if rng.random() < .7 else rng.choice(["close", "rst"])))
        else:
            if fs:
                acts.append(send(*fs, nr=rng.randrange(2)))
            acts.append(A(rng.choice(["fin", "close", "rst"])))
        acts += [rcall(rng), A("adv", ms=8000), rcall(rng)]
        out.append(S("ends", i, acts, rng))
    return out


@family
def enddisc(ctx, n):
    """every well-formed DISCONNECT, alone and after traffic"""
    rng = ctx.rng("enddisc")
    dis = [w["d"] for w in ctx.wire if w["v"] == "ok" and w["ty"] == 14]
    out = []
    for i in range(n):
        d = dis[i % len(dis)]
        acts = list(UP)
        r = rng.random()
        if r < .3:
            acts.append(send(rmsg(rng, i), d, rmsg(rng, i + 1)))
        elif r < .5:
            acts += [nr(rcall(rng)), nr(send(rmsg(rng, i))), send(d)]
        else:
            acts.append(send(d, **({"each": 1} if r < .6 else {})))
        out.append(S("enddisc", i, acts + [RUN, A(rng.choice(["run", "fin", "close"])), rcall(rng)], rng))
    return out


@family
def disconnects(ctx, n):
    rng = ctx.rng("disconnects")
    out = []
    for i in range(n):
        acts = list(UP) if rng.random() < .85 else [RUN]
        for _ in range(rng.randrange(0, 12)):
            acts.append(rcall(rng, nr=1 if rng.random() < .8 else 0))
        if rng.random() < .3:
            acts.append(send(*[rmsg(rng, k) for k in range(rng.randrange(1, 6))], nr=1))
        if rng.random() < .15:
            big = pub("big", [[66, rng.choice([2000, 9000, 20000, 70000, 200000, 1500000])]], rng.randrange(3), nr=1)
            acts += [big] * rng.choice([1, 1, 2])
        acts.append(nr(disc()))
        for _ in range(rng.randrange(0, 3)):
            acts.append(nr(rng.choice([rcall(rng), disc(), send(rmsg(rng, 3))])))
        if acts[1].get("d") != rle(CONNACK):
            acts.append(send(CONNACK))
        acts += [RUN, rcall(rng), RUN]
        out.append(S("disconnects", i, acts, rng))
    return out


@family
def early(ctx, n):
    """the time before the CONNACK"""
    rng = ctx.rng("early")
    out = []
    for i in range(n):
        if i % 7 == 6:
            out.append(S("early", i, [rng.choice([RUN, rcall(rng)]), rcall(rng)], rng, refused=True, lazy=bool(i % 2)))
            continue
        acts = []
        for _ in range(rng.randrange(0, 6)):
            acts.append(rng.choice([rcall(rng, nr=rng.randrange(2)), A("adv", ms=rng.choice([1000, 8000, 8000])), RUN, A("clone"), nr(disc())]))
        r = rng.random()
        if r < .55:
            c = cat(CONNACK, *[rmsg(rng, k) for k in range(rng.randrange(3))])
            acts.append(send(c, cuts=sorted_cuts(rng, rlen(c), rng.randrange(1, 4)) if rng.random() < .5 else []))
            acts += [rcall(rng), RUN]
        elif r < .7:
            acts += [send(frame(0x20, [0, rng.choice([128, 135, 136, 153, 159]), 0]), nr=rng.randrange(2)), rcall(rng), RUN]
        elif r < .85:
            acts += ([send(CONNACK[:rng.randrange(1, 5)])] if rng.random() < .6 else []) + [A(rng.choice(["fin", "close", "rst"])), rcall(rng), RUN]
        else:
            acts += [send(rng.choice([publish("t", "x"), publish("t", "x", 1, 4), PONG, suback(1), sdisc(), sdisc(139), [240, 0], [0x20, 3, 2, 0, 0], [0x20, 3, 0, 77, 0]])), rcall(rng), RUN]
        out.append(S("early", i, fix_adv(acts), rng, lazy=rng.random() < .5))
    return out


@family
def connect(ctx, n):
    """behaviours of spec/Connect.tla: before and until there is a connection"""
    rng = ctx.rng("connect")
    hs = list(ctx.connect)
    rng.shuffle(hs)
    out = []
    for i, (k, h) in enumerate(hs[:n]):
        acts = []
        for a in h:
            if a[0] == "listen":
                acts.append(A("listen", i=a[1] - 1, nr=1))
            elif a[0] == "call":
                acts.append(rcall(rng, nr=1))
            elif a[0] == "poll":
                acts += [A("peek", nr=1), RUN]
            elif a[0] == "fin":
                acts += [send(CONNACK), A("fin"), A("peek")]
            else:
                acts.append(A(a[0], nr=1))
        if h[-1][0] != "fin":
            r = rng.random()
            if r < .5:
                acts += [A("peek", nr=1), rcall(rng), send(cat(CONNACK, rmsg(rng, 1))), rcall(rng), rng.choice([RUN, disc(), A("kill")])]
            elif r < .7:
                acts += [A("hold"), send(CONNACK), A("adv", ms=8000), A("drain")]
            elif r < .85:
                acts += [rng.choice([A("kill"), A("rst"), A("close"), A("fin")]), rcall(rng)]
        form = rng.choice(["sock", "words", "string", "pair", "ip", "v6", "slice"]) if k == 1 else rng.choice(["slice", "mix46", "mix64", "v6"])
        out.append(S("connect", i, acts + [RUN, A("peek")], rng, net=k, form=form, lazy=True))
    return out


# --------------------------------------------------------- dropped handles
@family
def drops(ctx, n):
    rng = ctx.rng("drops")
    out = []
    for i in range(n):
        acts = list(UP) if rng.random() < .85 else [RUN]
        hs = 1
        for _ in range(rng.randrange(0, 3)):
            acts.append(A("clone", h=0))
            hs += 1
        for _ in range(rng.randrange(1, 6)):
            acts.append(rcall(rng, rng.randrange(hs), nr=1 if rng.random() < .6 else 0))
        if rng.random() < .4:
            acts.append(A("drop", h=rng.randrange(hs), nr=rng.randrange(2)))
            acts.append(rcall(rng, rng.randrange(hs)))
        if rng.random() < .85:
            acts.append(A("dropall", nr=rng.randrange(2)))
        if rng.random() < .35:
            acts.append(A("droprx", nr=rng.randrange(2)))
        if acts[1].get("d") != rle(CONNACK):
            acts.append(send(CONNACK))
        acts.append(RUN)
        for k in range(rng.randrange(1, 5)):
            acts.append(rng.choice([send(rmsg(rng, k), rmsg(rng, k + 1)), A("ack", i=0), A("adv", ms=8000, step=2000, pong=1),
                                    send(*[publish("m", "x", 1, 5)] * 120), send(suback(9))]))
        acts.append(rng.choice([RUN, A("fin"), send(sdisc()), send(sdisc(130)), send([0xF0, 0]), A("adv", ms=24000, step=1000)]))
        out.append(S("drops", i, acts, rng))
    return out


# ------------------------------------------------------- the command queue
@family
def queue(ctx, n):
    rng = ctx.rng("queue")
    out = []
    for i in range(n):
        acts = list(UP) if rng.random() < .6 else [RUN]
        live = acts[-1].get("a") == "send"
        hs = rng.choice([1, 1, 1, 3])
        for _ in range(hs - 1):
            acts.append(A("clone", h=0))
        k = rng.choice([50, 99, 100, 101, 102, 103, 105, 130])
        one = rcall(rng)
        for j in range(0, k, 10):
            acts.append(dict(rng.choice([one, rcall(rng)]), rep=min(10, k - j), h=rng.randrange(hs), nr=1))
        if rng.random() < .3:
            acts.append(nr(sub([[97, 65536]])))
        if not live:
            acts += [RUN, rcall(rng), send(CONNACK)]
        acts += [RUN, rcall(rng), rcall(rng)]
        if rng.random() < .4:
            acts += [dict(pub("again", "x", 0), rep=rng.choice([100, 101, 110]), nr=1), RUN, rcall(rng)]
        if rng.random() < .4:
            acts += [rng.choice([disc(), A("fin"), send(sdisc()), send([0xF0, 0])]), rcall(rng), rcall(rng, hs - 1), disc()]
        out.append(S("queue", i, acts, rng))
    return out


# ----------------------------------------------------- a peer that stops reading
@family
def halted(ctx, n):
    rng = ctx.rng("halted")
    out = []
    for i in range(n):
        acts = list(UP) + [A("halt")]
        big = rng.choice([200000, 700000, 1500000])
        long = i % 2
        if long:
            acts.append(pub("huge", [[64, 6000000]], rng.choice([0, 1])))
        for j in range(rng.randrange(3, 14)):
            r = rng.random()
            if r < .5:
                acts.append(pub("big%d" % j, [[65 + j, big]], rng.choice([0, 1]), nr=rng.randrange(2)))
            elif r < .7:
                acts.append(rcall(rng, nr=rng.randrange(2)))
            elif r < .9:
                acts.append(send(*[rmsg(rng, j * 10 + k) for k in range(rng.choice([1, 3]))], nr=rng.randrange(2)))
            else:
                acts += [RUN, A("resume"), RUN, A("halt")]
        if rng.random() < .3:
            acts += [A("hold"), send(*[rmsg(rng, k) for k in range(110)]), A("drain")]
        acts += [pub("while", "writing", rng.choice([0, 1])), rng.choice([sub("while"), unsub("while")])]
        if rng.random() < .3:
            acts.append(nr(disc()))
        if long:
            acts += [RUN, A("adv", ms=rng.choice([9000, 25000, 61000, 130000]), step=rng.choice([1000, 4000]), pong=1)]
        acts += [RUN, A("resume"), rcall(rng), send(publish("after", "x", 1, 77))]
        out.append(S("halted", i, acts, rng, rcvbuf=rng.choice([4096, 65536, 0])))
    return out


@family
def mixed(ctx, n):
    """everything at once"""
    rng = ctx.rng("mixed")
    out = []
    for i in range(n):
        acts = list(UP)
        hs = 1
        held = halted_ = False
        for k in range(rng.randrange(15, 60)):
            r = rng.random()
            z = rng.randrange(2)
            if r < .3:
                acts.append(rcall(rng, rng.randrange(hs), nr=z))
            elif r < .55:
                acts.append(send(*[rmsg(rng, k * 7 + j) for j in range(rng.choice([1, 1, 3, 20]))], nr=z))
            elif r < .7:
                acts.append(A("ack", i=rng.randrange(4), new=rng.randrange(2), form=rng.randrange(3), nr=z))
            elif r < .75:
                acts.append(A("reack", nr=z))
            elif r < .85 and not held and not halted_:
                acts.append(A("adv", ms=rng.choice([500, 1000, 4000]), step=500, pong=1))
            elif r < .9:
                acts.append(A("drain" if held else "hold"))
                held = not held
            elif r < .93 and hs < 4:
                acts.append(A("clone", h=0))
                hs += 1
            elif r < .96:
                acts += [RUN, A("resume" if halted_ else "halt")]
                halted_ = not halted_
            else:
                acts.append(RUN)
        acts += [A("drain"), A("resume"), RUN]
        e = rng.random()
        acts.append(nr(disc()) if e < .3 else A("fin") if e < .5 else send(sdisc(rng.choice([0, 129]))) if e < .7 else RUN)
        out.append(S("mixed", i, fix_adv(acts + [RUN]), rng))
    return out


# ------------------------------------------------------- long histories
@family
def memory(ctx, n):
    """much traffic, little outstanding; and much that cannot be handed on"""
    rng = ctx.rng("memory")
    out = []
    k = 1 if ctx.tier == "quick" else 5
    for i in range(n):
        acts = list(UP)
        m = i % 11
        if m == 0:
            # requests and their answers
            for j in range(60 * k):
                acts += [dict(pub("t%d" % j, [[65 + j % 20, 4000]], rng.choice([0, 1, 1])), rep=20, nr=1), RUN]
                acts += [A("ack", i=0, form=rng.randrange(3), nr=1)] * 20 + [RUN]
        elif m == 1:
            # many small ones
            acts.append(A("flood", n=1000))
            for j in range(400 * k):
                acts += [A("acks", r=[[1, 65535]]), A("flood", n=rng.choice([500, 1000, 1500]))]
            acts.append(A("acks", r=[[1, 65535]]))
        elif m == 2:
            d = publish("t", "m" * 100, 1, 1, props=[("up", "k", "v" * 20)])
            for j in range(3 * k):
                acts.append(A("rain", d=d, at=6, id=rng.choice([1, 60000]), n=65000, by=200))
        elif m == 3:
            # nobody takes the notifications
            acts.append(A("hold"))
            for j in range(30):
                acts.append(send(*[publish("t", [[65 + j, 4000]], rng.randrange(2), 9)] * 100, nr=1 if j % 10 else 0))
            acts += [A("drain"), A("adv", ms=8000, step=4000, pong=1)]
        elif m == 4:
            for j in range(150 * k):
                f = cat([[65 + j % 20, 3000]], "/%d" % (j // (1 + 49 * (i % 2))))
                acts += [dict(unsub(f) if rng.random() < .2 else sub(f, 1), rep=5, nr=1), RUN] + [A("ack", i=0, nr=1)] * 5 + [RUN]
        elif m == 5:
            # the peer takes nothing
            acts.append(A("halt"))
            for j in range(40):
                acts += [dict(pub("t", [[65 + j, 60000]], rng.randrange(2)), rep=10, nr=1), RUN]
            acts += [A("resume"), RUN]
            acts += [A("ack", i=0, nr=1)] * 400 + [RUN]
        elif m == 6:
            # one stays unacknowledged, the others do not
            acts += [pub("first", "x", 1), sub("second", 1)]
            for j in range(60 * k):
                acts += [dict(pub("t%d" % j, [[65 + j % 20, 4000]], 1), rep=20, nr=1), RUN]
                acts += [A("ack", i=2, form=rng.randrange(3), nr=1)] * 20 + [RUN]
            acts += [A("ack", i=0), A("ack", i=0)]
        elif m == 9:
            # the peer takes nothing, and the application goes on
            acts += [A("halt"), pub("plug", [[66, 8000000]], rng.randrange(2)), RUN]
            for j in range(50):
                acts += [dict(pub("t", [[65 + j % 20, rng.choice([0, 10, 500])]], rng.choice([0, 0, 1])), rep=50, nr=1), RUN]
            acts += [A("resume"), RUN]
        elif m == 10:
            # something very large once; then much that is small, and not taken
            for j in range(2):
                acts.append(send(publish("t", [[65 + j, 700000]], j, 4, props=[("up", "k", [[97, 60000]])] * 4)))
                acts += [pub("t", [[65 + j, 700000]], 1), A("ack", i=0)]
            acts += [A("hold"), send(*[publish("t%d" % j, "x", j % 2, 9, props=[("up", "k", "v"), ("rt", "r", "")]) for j in range(95)]), RUN]
            acts += [A("halt")] + [dict(pub("t", "x", rng.randrange(2)), rep=20, nr=1)] * 4 + [RUN, A("resume"), A("drain"), RUN]
        elif m == 8:
            # nothing is ever said twice
            for j in range(60 * k):
                fs = []
                for l in range(10):
                    x = "%d/%d" % (j, l)
                    fs.append(publish(cat([[65 + l, 2000]], x), x, l % 2, 1 + j * 10 + l,
                                      props=[("up", cat([[97 + l, 1000]], x), x), ("cd", cat([[j, 500]], x), b""), ("rt", cat([[98 + l, 500]], x), b"")]))
                acts += [send(*fs)]
        else:
            # large packets, one after another
            for j in range(12 * k):
                acts.append(send(publish("t", [[65 + j % 20, rng.choice([300000, 900000])]], 1, 4)))
                acts += [pub("t", [[65 + j % 20, 900000]], 1), A("ack", i=0)]
        acts += [RUN, A("adv", ms=8000, step=1000, pong=1)]
        out.append(S("memory", i, acts, rng))
    return out


@family
def rain(ctx, n):
    """a long stream of messages, every identifier"""
    rng = ctx.rng("rain")
    out = []
    for i in range(n):
        acts = list(UP)
        ps = rmsgprops(rng)
        d = publish("t", "m%d" % i, 1, 1, dup=rng.randrange(2), retain=rng.randrange(2), props=ps)
        acts.append(A("rain", d=d, at=5, id=rng.choice([1, 60000, 65535, 32000]), n=rng.choice([3000, 8000]) if ctx.tier == "quick" else rng.choice([8000, 65535]),
                      by=rng.choice([1, 7, 90, 200, 1000])))
        acts += [rcall(rng), send(publish("after", "x", 1, 77)), rng.choice([RUN, A("fin"), send(sdisc()), nr(disc())])]
        out.append(S("rain", i, acts, rng))
    return out


@family
def many(ctx, n):
    """one packet with very many parts"""
    rng = ctx.rng("many")
    out = []
    for i in range(n):
        acts = list(UP)
        k = rng.choice([800000, 900000]) if ctx.tier == "quick" else rng.choice([400000, 900000, 1500000])
        u = [[38, 0, 0, 0, 0], [38, 0, 1, 97, 0, 1, 98]][i % 2]
        acts.append(A("many", topic="m", pl="x", unit=u, n=k, id=5))
        acts += [rcall(rng), send(publish("after", "x", 1, 77)), rng.choice([RUN, A("fin"), send(sdisc()), nr(disc())])]
        out.append(S("many", i, acts, rng))
    return out


@family
def idle(ctx, n):
    """nothing happens but time, in small steps"""
    rng = ctx.rng("idle")
    out = []
    for i in range(n):
        acts = list(UP) if i % 5 else [RUN]
        for _ in range(rng.randrange(3)):
            acts.append(rng.choice([rcall(rng), send(rmsg(rng, 1)), A("ack", i=0), A("clone", h=0)]))
        acts += [[], [A("dropall")], [A("droprx")], [A("dropall"), A("droprx")], [A("hold"), send(*[publish("t", "x")] * 150)]][rng.randrange(5)]
        acts.append(RUN)
        acts.append(A("adv", ms=7900, step=rng.choice([25, 50, 100])))
        acts.append(A("adv", ms=16000, step=100, pong=1))
        out.append(S("idle", i, acts, rng))
    return out


@family
def longlife(ctx, n):
    """hundreds of keep-alive intervals"""
    rng = ctx.rng("longlife")
    out = []
    for i in range(n):
        k = 300 if ctx.tier == "quick" else rng.choice([1000, 5000])
        acts = list(UP) + [A("adv", ms=8000 * k, step=8000, pong=1)]
        acts += [rcall(rng), send(publish("after", "x", 1, 77)), A("adv", ms=30000, step=1000)]
        out.append(S("longlife", i, acts, rng))
    return out


@family
def storm(ctx, n):
    """there is always another packet to read; everything else is due all the same"""
    rng = ctx.rng("storm")
    out = []
    for i in range(n):
        acts = list(UP)
        d = publish("t", "m", 0) if i % 3 else publish("t", "m", 1, 5)
        calls = [rcall(rng) for _ in range(8)]
        k = rng.randrange(8, 14)
        if i % 4 == 3:
            # time does not matter: a disconnect does
            acts.append(A("storm", d=d, n=4000, ahead=400, ms=1, calls=calls[:3] + [disc()]))
        else:
            acts.append(A("storm", d=d, n=7000 if ctx.tier == "quick" else 20000, ahead=400, ms=400, pong=0 if i % 4 == 2 else 1, calls=calls))
        acts += [RUN, rcall(rng)]
        out.append(S("storm", i, acts, rng))
    return out


@family
def kill(ctx, n):
    """the event loop is dropped, at any point"""
    rng = ctx.rng("kill")
    out = []
    for i in range(n):
        acts = [[], [RUN], list(UP), list(UP), list(UP)][rng.randrange(5)]
        up = len(acts) > 1
        hs = 1
        for k in range(rng.randrange(0, 8)):
            r = rng.random()
            if r < .4:
                acts.append(rcall(rng, rng.randrange(hs), nr=rng.randrange(2)))
            elif r < .7 and up:
                acts.append(send(*[rmsg(rng, k)] * rng.choice([1, 3, 120]), nr=rng.randrange(2)))
            elif r < .8:
                acts.append(A(rng.choice(["hold", "drain"])))
            elif r < .85:
                acts += [A("halt"), pub("big", [[66, 3000000]], 1), RUN]
            elif r < .9 and up:
                acts += [RUN, A("adv", ms=8000, step=4000)]
            else:
                acts.append(A("clone", h=0))
                hs += 1
        if rng.random() < .15:
            acts.append(rng.choice([nr(A("fin")), nr(A("rst")), nr(A("close")), nr(disc()), nr(send(sdisc(0)))]))
        acts += [A("kill", nr=1), rcall(rng), rcall(rng, hs - 1), A("drain"), disc(), A("adv", ms=9000)]
        out.append(S("kill", i, fix_adv(acts), rng))
    return out


@family
def twin(ctx, n):
    """several clients in one process, each with its own broker"""
    rng = ctx.rng("twin")
    out = []
    for i in range(n):
        k = rng.choice([2, 2, 3])
        acts = []
        for w in range(k):
            if rng.random() < .9:
                acts.append(dict(send(CONNACK), w=w))
        if i % 6 == 5:
            # one of them runs out of identifiers
            acts += [dict(A("flood", n=65535), w=0), dict(pub("wait", "x", 1), w=0)]
        for j in range(rng.randrange(10, 45)):
            w = rng.randrange(k)
            r = rng.random()
            z = rng.randrange(2)
            if r < .35:
                x = rcall(rng, nr=z)
            elif r < .6:
                x = send(*[rmsg(rng, j * 7 + q) for q in range(rng.choice([1, 1, 3]))], nr=z)
            elif r < .75:
                x = A("ack", i=rng.randrange(3), nr=z)
            elif r < .9:
                x = A("adv", ms=1000, pong=rng.choice([0, 1, 1]))
                acts += [dict(RUN, w=q) for q in range(k)]
            elif r < .93:
                x = rng.choice([A("fin"), send(sdisc()), send(sdisc(130)), nr(disc()), send([0xF0, 0]), A("kill"), A("dropall"), A("rst")])
            elif r < .95:
                x = send(publish("t", "xyz", 1, 5)[:4], nr=z)
            else:
                x = A("hold" if rng.random() < .5 else "drain")
            acts.append(dict(x, w=w))
        acts += [dict(RUN, w=q) for q in range(k)]
        out.append(S("twin", i, acts, rng, twins=k))
    return out


@family
def threads(ctx, n):
    """calls from several threads at once"""
    rng = ctx.rng("threads")
    out = []
    for i in range(n):
        acts = list(UP)
        for _ in range(rng.choice([1, 2])):
            acts += [A("threads", k=rng.choice([2, 3, 5]), n=rng.choice([30, 60, 150])), rcall(rng), A("acks", r=[[1, 65535]])]
        acts += [send(publish("after", "x", 1, 77)), rng.choice([RUN, disc()])]
        out.append(S("threads", i, acts, rng))
    return out


def dump(scs, path):
    with open(path, "w") as f:
        for s in scs:
            f.write(json.dumps(s) + "\n")
