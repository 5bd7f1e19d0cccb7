"""What each property's check runs against the real client.

FLAVOURS: instances of spec/SessionGen.tla from which schedules are drawn.
PROFILE[prop] = (schedules, families): schedules are (flavour, number, rng
seeds per schedule, preamble), families are (name, number quick, number
thorough)."""
from models import M

ALLP = {"connack", "refused", "m0", "m1", "m1d", "m1b", "ack1", "ack2", "sack1", "sack2", "uack1", "uack2",
        "pong", "dok", "derr", "m2", "bad", "auth"}
ALLC = {"pub0", "pub1", "pub1b", "sub", "unsub", "disc", "big", "max"}
ENDS = {"fin", "mid", "rst", "close"}
G = dict(Batch=True, IdMax=9, MaxId=9, NoteCap=9, NCap=9, Cap=9)

# name: (instance, Start, Late)
FLAVOURS = {
    "handshake": (M(**dict(G, PktSet=ALLP - {"m1b", "ack2", "sack1", "uack2"}, CmdSet={"pub1", "pub0", "sub", "disc"}, Ends=ENDS,
                    NPkts=4, NCmds=4, NSteps=3, Drops=True)), "any", False),
    "live": (M(**dict(G, PktSet={"connack", "m0", "m1", "m1d", "m1b", "ack1", "ack2", "sack2", "uack1", "pong"}, CmdSet=ALLC, Ends={"fin"},
               NPkts=6, NCmds=5, NSteps=2)), "live", True),
    "slow": (M(**dict(G, PktSet={"connack", "m0", "m1", "sack1", "uack2", "ack1", "pong", "dok"}, CmdSet={"pub1", "sub", "disc"},
               Ends={"fin"}, NPkts=6, NCmds=3, NSteps=5, Slow=True, NoteCap=1, NCap=1)), "live", True),
    "drops": (M(**dict(G, PktSet={"connack", "m0", "m1", "ack1", "sack2", "pong", "dok", "derr"}, CmdSet={"pub1", "pub0", "sub", "disc"},
                Ends={"fin"}, NPkts=5, NCmds=4, NSteps=3, Drops=True)), "live", True),
    "dropsany": (M(**dict(G, PktSet={"connack", "m1", "pong"}, CmdSet={"pub1", "sub"}, Ends={"fin"},
                   NPkts=4, NCmds=3, NSteps=3, Drops=True)), "any", False),
    "ends": (M(**dict(G, PktSet={"m0", "m1", "ack1", "sack2", "dok", "derr", "bad", "auth", "m2", "connack"}, CmdSet={"pub1", "sub", "disc"},
               Ends=ENDS, NPkts=4, NCmds=3, NSteps=1, Slow=True)), "live", False),
    "kill": (M(**dict(G, PktSet={"connack", "m0", "m1", "ack1", "sack2", "dok"}, CmdSet={"pub1", "pub0", "sub", "disc"}, Ends={"kill"},
               NPkts=4, NCmds=5, NSteps=2, Slow=True)), "any", False),
    "time": (M(**dict(G, PktSet={"connack", "m0", "m1", "pong", "ack1"}, CmdSet={"pub0", "pub1", "disc"}, NPkts=8, NCmds=3, NSteps=12)), "live", True),
}

# every schedule within the bounds, for the thorough tier: name: (instance, Start, Late, the properties it is run for)
A = dict(G, MaxId=2, IdMax=2)
ALL = {
    "all-calls": (M(**dict(A, PktSet={"connack", "ack1", "m1"}, CmdSet={"pub1", "pub0", "sub", "disc"}, NPkts=2, NCmds=3)), "live", True,
                  {"C03", "C04", "C16", "C20"}),
    "all-in": (M(**dict(A, PktSet={"connack", "m0", "m1", "sack1", "pong"}, CmdSet={"pub1"}, NPkts=4, NCmds=1)), "live", True,
               {"C06", "C08", "C10", "C20"}),
    "all-slow": (M(**dict(A, PktSet={"connack", "m1", "sack1"}, CmdSet={"pub1", "disc"}, NPkts=3, NCmds=1, NSteps=2, Slow=True, NoteCap=1, NCap=1)),
                 "live", True, {"C09", "C20"}),
    "all-ends": (M(**dict(A, PktSet={"connack", "m1", "dok", "derr", "bad"}, CmdSet={"pub1", "disc"}, Ends=ENDS, NPkts=3, NCmds=1, NSteps=1, Slow=True)),
                 "live", False, {"C12", "C13", "C17", "C22"}),
    "all-drops": (M(**dict(A, PktSet={"connack", "m1", "ack1"}, CmdSet={"pub1"}, NPkts=2, NCmds=1, NSteps=1, Drops=True)), "live", False,
                  {"C18", "C21"}),
    "all-kill": (M(**dict(A, PktSet={"connack", "m1"}, CmdSet={"pub1", "disc"}, Ends={"kill"}, NPkts=3, NCmds=2)), "any", False, {"C22", "C19"}),
    "all-hs": (M(**dict(A, PktSet={"connack", "refused", "m1", "bad"}, CmdSet={"pub1", "disc"}, Ends={"fin", "mid", "rst"}, NPkts=3, NCmds=2, NSteps=1)),
               "any", False, {"C01", "C02", "C05"}),
    "all-time": (M(**dict(A, PktSet={"connack", "m1", "pong"}, CmdSet={"pub1"}, NPkts=3, NCmds=1, NSteps=4)), "live", True, {"C14", "C15"}),
}


def schedules(prop, quick):
    fl = PROFILE[prop][0]
    if quick:
        return fl
    return fl + [(k, 10000, 1, "full" if k == "all-slow" else None) for k, v in ALL.items() if prop in v[3]]


PROFILE = {
    "C01": ([("handshake", 250, 1, None)],
            [("early", 250, 3000), ("wire_first", 80, 660), ("wire_bad_first", 40, 1500), ("ping", 6, 60), ("calls", 40, 500)]),
    "C02": ([("handshake", 200, 1, None)],
            [("early", 200, 3000), ("wire_first", 180, 660), ("wire_bad_first", 150, 4000), ("wire_bad_conn", 120, 1000), ("fuzz", 60, 2000)]),
    "C03": ([("live", 150, 2, None), ("slow", 60, 1, "full"), ("handshake", 60, 1, None)],
            [("calls", 120, 2000), ("text_out", 24, 200), ("queue", 25, 300), ("disconnects", 60, 800), ("mixed", 40, 600), ("halted", 30, 300), ("slow", 12, 100), ("drops", 40, 300), ("ids", 30, 500),
             ("exhaust", 1, 4), ("sizes_out", 16, 200), ("storm", 4, 40), ("threads", 30, 400)]),
    "C04": ([("live", 100, 1, None)],
            [("calls", 350, 5000), ("text_out", 48, 600), ("sizes_out", 200, 200), ("huge_out", 2, 6), ("toolong", 40, 300), ("disconnects", 20, 300), ("halted", 20, 200)]),
    "C05": ([("live", 100, 1, None), ("handshake", 40, 1, None)],
            [("toolong", 250, 2500), ("sizes_out", 60, 200), ("huge_out", 3, 6), ("calls", 40, 500), ("queue", 8, 60)]),
    "C06": ([("live", 200, 2, None)],
            [("ids", 250, 3000), ("calls", 60, 1000), ("exhaust", 8, 40), ("recycle", 4, 24), ("mixed", 20, 300), ("threads", 20, 200)]),
    "C07": ([("live", 120, 1, None)],
            [("ids", 80, 1500), ("exhaust", 16, 80), ("ackforms", 5, 40), ("recycle", 10, 40), ("idtour", 12, 60)]),
    "C08": ([("live", 150, 2, None), ("slow", 60, 1, "full"), ("ends", 60, 1, None)],
            [("inbound", 200, 3000), ("text_in", 24, 200), ("wire_good", 60, 400), ("slow", 12, 100), ("mixed", 30, 500), ("halted", 25, 300), ("drops", 40, 400), ("sizes_in", 30, 80), ("rain", 6, 40), ("wire_bad_heads", 40, 300)]),
    "C09": ([("slow", 200, 2, "full"), ("live", 80, 1, None), ("ends", 60, 1, None)],
            [("inbound", 120, 2000), ("text_in", 24, 200), ("slow", 30, 200), ("slow_edge", 7, 7), ("wire_good", 60, 400), ("mixed", 30, 500), ("halted", 20, 300), ("drops", 30, 300), ("rain", 6, 40), ("wire_bad_heads", 40, 300)]),
    "C10": ([("live", 80, 1, None)],
            [("wire_all_good", 1, 400), ("cuts_head", 2, 6), ("text_in", 48, 600), ("wire_first", 100, 660), ("sizes_in", 120, 200), ("inbound", 100, 1500), ("fuzz", 60, 2000), ("many", 2, 12)]),
    "C11": ([],
            [("cuts", 90, 900), ("cuts_head", 12, 120), ("fuzz", 60, 1000), ("inbound", 40, 300)]),
    "C12": ([("ends", 80, 1, None), ("handshake", 60, 1, None)],
            [("wire_bad", 500, 4000), ("wire_bad_first", 150, 3000), ("fuzz", 350, 8000), ("text_in", 72, 800), ("text_out", 24, 300), ("cuts_head", 2, 12), ("wire_good", 60, 400), ("wire_first", 60, 660), ("ends", 60, 600), ("inbound", 40, 500), ("many", 4, 20)]),
    "C13": ([("ends", 150, 1, None)],
            [("wire_bad", 450, 4000), ("wire_bad_heads", 120, 1000), ("wire_bad_disc", 80, 400), ("wire_bad_pub", 150, 2000), ("fuzz", 200, 6000), ("wire_good", 40, 400)]),
    "C14": ([("time", 250, 2, None), ("dropsany", 40, 1, None)],
            [("ping", 90, 900), ("storm", 6, 60), ("longlife", 2, 12), ("ping_edge", 24, 48), ("drops", 40, 400), ("mixed", 20, 300), ("exhaust", 1, 4)]),
    "C15": ([("time", 250, 2, None)],
            [("ping", 110, 1200), ("storm", 8, 60), ("longlife", 2, 12), ("ping_edge", 24, 48), ("drops", 40, 300), ("exhaust", 1, 4), ("mixed", 15, 200)]),
    "C16": ([("live", 120, 2, None), ("ends", 100, 1, None), ("drops", 40, 1, None)],
            [("disconnects", 250, 3000), ("calls", 60, 600), ("halted", 20, 300), ("queue", 10, 100), ("slow", 8, 60), ("exhaust", 4, 16)]),
    "C17": ([("ends", 250, 2, None)],
            [("ends", 250, 3000), ("wire_good", 60, 400), ("enddisc", 120, 300), ("inbound", 60, 600), ("slow", 10, 80), ("wire_bad_disc", 20, 200)]),
    "C18": ([("drops", 200, 1, None), ("dropsany", 120, 1, None)],
            [("drops", 180, 2000), ("idle", 40, 400), ("ping", 12, 100)]),
    "C19": ([("live", 80, 1, None), ("handshake", 80, 1, None), ("ends", 60, 1, None)],
            [("queue", 60, 500), ("calls", 60, 800), ("toolong", 30, 300), ("text_out", 18, 200), ("exhaust", 1, 4), ("early", 40, 400), ("threads", 30, 400), ("halted", 20, 200)]),
    "C21": ([("drops", 40, 1, None), ("slow", 40, 1, "full")],
            [("memory", 22, 88), ("idle", 60, 600), ("recycle", 1, 6), ("mixed", 20, 200), ("drops", 30, 200)]),
    "C22": ([("kill", 200, 1, None), ("ends", 100, 1, None), ("handshake", 60, 1, None)],
            [("kill", 200, 2500), ("ends", 60, 500), ("enddisc", 20, 200), ("queue", 10, 100), ("early", 40, 300)]),
    "C23": ([],
            [("twin", 120, 1500)]),
    "C24": ([],
            [("connect", 700, 6000), ("early", 20, 200)]),
    "C20": ([("live", 150, 2, None), ("ends", 150, 1, None), ("slow", 80, 1, "full"), ("drops", 60, 1, None), ("time", 60, 1, None), ("handshake", 60, 1, None)],
            [("mixed", 60, 800), ("halted", 40, 400), ("inbound", 60, 800), ("disconnects", 40, 400), ("slow", 8, 60), ("calls", 30, 400), ("ends", 40, 500), ("wire_bad", 60, 600), ("wire_bad_heads", 40, 300)]),
}
