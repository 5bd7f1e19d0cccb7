"""Bounded instances of spec/Session.tla: which one is checked for which
property, and which deliberate defects (constant Bug) each must expose."""

BASE = dict(Cap=2, NCap=1, MaxId=2, Slack=0, Room=0, IdMax=2, NoteCap=1, Exact=True,
            Policies={"burst"}, Bug="none", NPkts=3, NCmds=2, NSteps=0,
            PktSet={"connack"}, CmdSet={"pub1"}, Ends=set(), Drops=False,
            Slow=False, Batch=False, Watch={"C%02d" % i for i in range(1, 25)})


def M(**kw):
    d = dict(BASE)
    d.update(kw)
    return d


# property: (quick instance, additional instances of the thorough tier, {bug: instance overrides})
MODELS = {
    "C01": (M(PktSet={"connack", "m1", "pong"}, CmdSet={"pub1", "sub", "disc"}, NSteps=2, Slow=True, NPkts=2),
            [M(PktSet={"connack", "m1", "pong", "bad"}, CmdSet={"pub1", "sub", "disc"}, NSteps=2, NPkts=3, Ends={"fin"})],
            {"conn2": {}, "early": {}}),
    "C02": (M(PktSet={"connack", "refused", "m1", "bad", "dok"}, CmdSet={"pub1"}, Ends={"fin", "mid", "rst", "close"}, NPkts=2),
            [M(PktSet={"connack", "refused", "m1", "bad", "dok", "auth"}, CmdSet={"pub1", "disc"}, Ends={"fin", "mid", "rst", "close"}, NPkts=2, Slow=True, NSteps=2)],
            {"refgoeson": {}, "hsok": {}}),
    "C03": (M(PktSet={"connack", "m1", "ack1"}, CmdSet={"pub1", "sub", "disc"}, NCmds=3, NPkts=3),
            [M(PktSet={"connack", "m1", "ack1", "sack2"}, CmdSet={"pub0", "pub1b", "sub", "unsub", "disc"}, NCmds=3, NPkts=3, Slow=True, NSteps=1)],
            {"lifo": {}, "dupcmd": {}, "losecmd": {}}),
    "C04": (M(PktSet={"connack", "ack1"}, CmdSet={"pub0", "pub1", "pub1b", "sub", "unsub", "max"}, NCmds=3, NPkts=2),
            [], {"retain": {}}),
    "C05": (M(PktSet={"connack", "refused", "ack1"}, CmdSet={"pub1", "big", "max"}, NCmds=3, NPkts=2, Ends={"fin"}),
            [], {"noguard": {}}),
    "C06": (M(PktSet={"connack", "ack1", "sack2"}, CmdSet={"pub1", "sub"}, NCmds=4, NPkts=3),
            [M(PktSet={"connack", "ack1", "sack1", "sack2", "uack2"}, CmdSet={"pub1", "sub", "pub0"}, NCmds=5, NPkts=4, IdMax=3, MaxId=3)],
            {"idreuse": {}, "id0": {}}),
    "C07": (M(PktSet={"connack", "ack1", "sack2"}, CmdSet={"pub1", "sub"}, NCmds=5, NPkts=3, Cap=1),
            [M(PktSet={"connack", "ack1", "sack2", "m1", "pong"}, CmdSet={"pub1", "sub"}, NCmds=4, NPkts=4, NSteps=1)],
            {"noreuse": {}, "idfail": {}}),
    "C08": (M(PktSet={"connack", "m1", "m1d", "m1b", "m0"}, CmdSet={"pub1"}, NCmds=1, NPkts=4),
            [M(PktSet={"connack", "m1", "m1d", "m1b", "m0"}, CmdSet={"pub1"}, NCmds=1, NPkts=4, Slow=True, NSteps=2, Ends={"fin"})],
            {"noack": {}, "ackdup": {}}),
    "C09": (M(PktSet={"connack", "m1", "m0", "sack1"}, CmdSet={"pub1"}, NCmds=1, NPkts=3, Slow=True, NSteps=2),
            [M(PktSet={"connack", "m1", "m0", "sack1", "uack1"}, CmdSet={"pub1"}, NCmds=1, NPkts=5, Slow=True, NSteps=2, Ends={"fin"})],
            {"nonote": {}, "nowait": {}, "half": {}}),
    "C10": (M(PktSet={"connack", "m0", "m1", "m1d", "sack2", "uack1"}, CmdSet={"pub1"}, NCmds=1, NPkts=4),
            [], {"noteqos": {}}),
    "C11": (M(PktSet={"connack", "m1", "sack1", "bad", "dok"}, CmdSet={"pub1"}, NCmds=1, NPkts=3, Ends={"fin", "mid"}),
            [], {}),
    "C12": (M(PktSet={"connack", "bad", "auth", "m2", "m1", "refused"}, CmdSet={"pub1"}, NCmds=1, NPkts=3, Ends={"fin", "mid", "rst"}),
            [], {"crash": {}}),
    "C13": (M(PktSet={"connack", "bad", "auth", "m2", "m1"}, CmdSet={"pub1"}, NCmds=1, NPkts=4),
            [M(PktSet={"connack", "bad", "auth", "m2", "m1", "refused"}, CmdSet={"pub1", "disc"}, NCmds=2, NPkts=4, Ends={"fin"})],
            {"goeson": {}, "badok": {}}),
    "C14": (M(PktSet={"connack", "pong", "m0"}, CmdSet={"pub0"}, NCmds=1, NPkts=3, NSteps=5),
            [M(PktSet={"connack", "pong", "m0"}, CmdSet={"pub0"}, NCmds=1, NPkts=5, NSteps=7, Slow=True)],
            {"noping": {}, "pingmany": {}}),
    "C15": (M(PktSet={"connack", "pong"}, CmdSet={"pub0"}, NCmds=1, NPkts=4, NSteps=6),
            [M(PktSet={"connack", "pong", "m1"}, CmdSet={"pub0"}, NCmds=1, NPkts=5, NSteps=7)],
            {"patient": {}, "deafpong": {}}),
    "C16": (M(PktSet={"connack", "m1", "dok"}, CmdSet={"pub1", "sub", "disc"}, NCmds=3, NPkts=3, IdMax=1, MaxId=1),
            [M(PktSet={"connack", "m1", "ack1", "dok"}, CmdSet={"pub1", "sub", "disc"}, NCmds=3, NPkts=3, IdMax=1, MaxId=1, Ends={"fin", "close"})],
            {"discnow": {}, "disccont": {}}),
    "C17": (M(PktSet={"connack", "m1", "dok", "derr", "m0"}, CmdSet={"pub1"}, NCmds=1, NPkts=3, Ends={"fin", "mid", "rst", "close"}),
            [M(PktSet={"connack", "m1", "dok", "derr", "m0"}, CmdSet={"pub1", "disc"}, NCmds=2, NPkts=3, Ends={"fin", "mid", "rst", "close"})],
            {"sdok": {}, "eoferr": {}}),
    "C18": (M(PktSet={"connack", "m1"}, CmdSet={"pub1"}, NCmds=2, NPkts=3, NSteps=1, Drops=True),
            [M(PktSet={"connack", "m1", "m0"}, CmdSet={"pub1", "pub0"}, NCmds=2, NPkts=3, NSteps=2, Drops=True, Slow=True)],
            {"dropend": {}, "rxend": {}}),
    "C19": (M(PktSet={"connack", "dok", "bad"}, CmdSet={"pub1", "pub0", "big"}, NCmds=5, NPkts=2, Ends={"fin"}),
            [M(PktSet={"connack", "dok", "bad", "ack1"}, CmdSet={"pub1", "pub0", "disc", "big"}, NCmds=5, NPkts=3)],
            {"smallcap": {}, "lateok": {}}),
    "C20": (M(PktSet={"connack", "m1", "pong"}, CmdSet={"pub1", "disc"}, NCmds=2, NPkts=3, NSteps=2),
            [M(PktSet={"connack", "m1", "m0", "sack1", "dok"}, CmdSet={"pub1", "sub", "disc"}, NCmds=2, NPkts=3, NSteps=1, Ends={"fin", "close"}, Slow=True)],
            {"half": {"Slow": True}}),
    "C21": (M(PktSet={"connack", "m1", "ack1"}, CmdSet={"pub1", "sub"}, NCmds=2, NPkts=3, NSteps=1, Slow=True),
            [M(PktSet={"connack", "m1", "ack1", "sack2", "pong"}, CmdSet={"pub1", "sub", "pub0"}, NCmds=4, NPkts=4, NSteps=2)],
            {"noreuse": {}, "wakeful": {}}),
    "C22": (M(PktSet={"connack", "m1", "dok"}, CmdSet={"pub1"}, NCmds=2, NPkts=3, NSteps=1, Slow=True, Ends={"kill", "fin", "rst"}),
            [M(PktSet={"connack", "refused", "m1", "dok", "bad"}, CmdSet={"pub1", "disc"}, NCmds=3, NPkts=3, NSteps=2, Slow=True, Drops=True,
               Ends={"kill", "fin", "mid", "close", "rst"})],
            {"noend": {}, "zombie": {}, "lateok": {}}),
    "C23": (M(PktSet={"connack", "m1", "ack1"}, CmdSet={"pub1"}, NCmds=2, NPkts=3, NSteps=1, Slow=True, Ends={"fin"}), [], {}),
    "C24": (M(PktSet={"connack", "m1"}, CmdSet={"pub1"}, NCmds=2, NPkts=2, NSteps=1, Ends={"fin", "kill"}, Drops=True), [], {}),
}


def tla(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join('"%s"' % x for x in sorted(v)) + "}"
    return '"%s"' % v


def cfg(inst, extra="INVARIANTS NoViolation Agree\n", spec="Spec"):
    s = "SPECIFICATION %s\nVIEW View\n%sCHECK_DEADLOCK FALSE\nCONSTANTS\n" % (spec, extra)
    for k in BASE:
        s += "  %s = %s\n" % (k, tla(inst[k]))
    return s


# further modules: property -> [(module, constants quick, constants thorough, cfg head, {bug: constants})]
def plain(head, consts):
    return head + "CHECK_DEADLOCK FALSE\nCONSTANTS\n" + "".join("  %s = %s\n" % (k, v) for k, v in consts.items())


FRAMING = ("Framing", dict(Bytes="{0, 1, 2, 48, 128, 208}", MaxLen=4, Bug='"none"'),
           dict(Bytes="{0, 1, 2, 48, 128, 208}", MaxLen=6, Bug='"none"'),
           "SPECIFICATION Spec\nINVARIANTS Confluence NoByteLost\n", ["greedy", "eager", "skip"])
FRAMING_LIVE = ("Framing", dict(Bytes="{0, 1, 48, 128}", MaxLen=4, Bug='"none"'),
                dict(Bytes="{0, 1, 48, 128, 208}", MaxLen=5, Bug='"none"'),
                "SPECIFICATION Spec\nPROPERTY Rests\n", [])
PKTIDS = ("PktIds", dict(Max=5, Bug='"none"'), dict(Max=8, Bug='"none"'),
          "SPECIFICATION Spec\nVIEW View\nINVARIANTS Refines Bounded\nPROPERTY Fresh\n", ["foreign", "last", "tail", "noprev"])
CLIENTS = ("Clients", dict(N=2, IdMax=2, Steps=5, Bug='"none"'), dict(N=3, IdMax=2, Steps=5, Bug='"none"'),
           "SPECIFICATION Spec\nINVARIANTS Independent Sane\n", ["pool", "buffer", "flag", "channel"])
CONNECT = ("Connect", dict(N=3, Cap=2, MaxEnv=7, Bug='"none"'), dict(N=4, Cap=2, MaxEnv=10, Bug='"none"'),
           "SPECIFICATION Spec\nINVARIANTS Lazy OneOnly There FailsOnlyIfNone Delivered\nPROPERTIES Connects Decides\n",
           ["eager", "firstonly", "both", "again"])


def live(props, bugs, **kw):
    """liveness under Fair: no view, so that every state is told apart"""
    q = {k: tla(v) for k, v in M(**kw).items()}
    deep = {k: tla(v) for k, v in M(**dict(kw, NPkts=kw.get("NPkts", 3) + 1)).items()}
    return ("Session", q, deep, "SPECIFICATION Fair\nPROPERTIES %s\n" % props, bugs)


LIVE = {
    "C03": [live("ComesToRest CommandsMove", ["starve", "lostwake"], PktSet={"connack", "ack1", "pong"},
                 CmdSet={"pub1"}, NCmds=2, NPkts=2, NSteps=1, Slow=True, MaxId=1, IdMax=1)],
    "C09": [live("NotesMove PacketsMove", ["lostwake"], PktSet={"connack", "m1"}, CmdSet={"pub1"}, NCmds=1,
                 NPkts=2, NSteps=1, Slow=True, Ends={"fin"})],
    "C12": [live("ComesToRest PacketsMove", ["lostwake"], PktSet={"connack", "bad", "refused"}, CmdSet={"pub1"},
                 NCmds=1, NPkts=2, NSteps=1, Slow=True, Ends={"fin", "rst", "mid"})],
    "C16": [live("ComesToRest CommandsMove NotesMove", ["starve"], PktSet={"connack", "ack1", "pong"}, CmdSet={"pub1", "disc"},
                 NCmds=2, NPkts=2, NSteps=1, MaxId=1, IdMax=1)],
    "C22": [live("NotesMove", ["noend"], PktSet={"connack", "dok"}, CmdSet={"pub1"}, NCmds=1, NPkts=1, NSteps=1,
                 Slow=True, Ends={"kill", "fin", "rst"}, Drops=True)],
}
EXTRA = {"C24": [CONNECT], "C23": [CLIENTS], "C11": [FRAMING], "C12": [FRAMING_LIVE], "C06": [PKTIDS], "C07": [PKTIDS]}
for _p in LIVE:
    EXTRA[_p] = EXTRA.get(_p, []) + LIVE[_p]
