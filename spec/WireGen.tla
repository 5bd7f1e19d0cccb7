------------------------------ MODULE WireGen ------------------------------
(***************************************************************************)
(* Packets for the client to receive, derived from the wire format of      *)
(* MqttWire: Good is a covering set of well-formed packets of every kind;  *)
(* Bad are their systematic corruptions (truncation with and without a     *)
(* corrected length, extension, replaced bytes, over-long length fields,   *)
(* foreign packet types) with the verdict of DecS.  The ASSUMEs check the  *)
(* format against itself: what Enc writes Dec reads back, unchanged.       *)
(***************************************************************************)
EXTENDS MqttWire, SequencesExt, Json, IOUtils

BytesOf(s) == FromSeq(s)
sA == <<<<97, 1>>>>                              \* "a"
sKey == BytesOf(<<107, 101, 121>>)               \* "key"
sUni == BytesOf(<<195, 164, 226, 130, 172, 240, 159, 152, 128>>)   \* 2, 3 and 4 byte characters
sLong == <<<<108, 128>>>>
sQuote == BytesOf(<<34, 44, 32, 92, 10, 125, 93, 41>>)            \* characters that matter to a printer
(* text that a well-meaning program changes: a byte order mark, white space at the ends,
   capital letters, control characters, code points at the ends of the ranges, wildcards *)
sBom == BytesOf(<<239, 187, 191, 97, 239, 187, 191>>)
sSpace == BytesOf(<<32, 9, 97, 32, 10>>)
sUpper == BytesOf(<<65, 98, 195, 132, 47, 47, 46, 46, 47>>)
sEnds == BytesOf(<<244, 143, 191, 191, 239, 191, 191, 238, 128, 128, 237, 159, 191, 223, 191>>)
sCtl == BytesOf(<<1, 127, 27, 194, 128, 226, 128, 168, 226, 128, 174>>)
sMarks == BytesOf(<<101, 204, 129, 226, 128, 141, 239, 191, 189, 37, 48, 48, 63, 38>>)
sWild == BytesOf(<<43, 47, 35, 36>>)
Odd == {sBom, sSpace, sUpper, sEnds, sCtl, sMarks}
AllBytes == FromSeq([i \in 1..256 |-> i - 1])
up(a, b) == P("up", a, b)
rs(a) == P("rs", a, <<>>)
AckProps == {<<>>, <<up(sA, sKey)>>, <<up(sKey, <<>>), up(sA, sUni), up(sKey, <<>>)>>, <<rs(sKey)>>,
             <<rs(sUni), up(sA, sA)>>, <<up(sA, sA), rs(<<>>)>>, <<up(sLong, sLong)>>, <<rs(sQuote)>>, <<up(<<>>, <<>>), up(<<>>, sA)>>}
       \cup {<<rs(s), up(s, s)>> : s \in Odd \cup {sWild}}
pfi(x) == P("pfi", <<<<x, 1>>>>, <<>>)
mei(s) == P("mei", BytesOf(s), <<>>)
rt(s) == P("rt", s, <<>>)
cd(s) == P("cd", s, <<>>)
(* every property before, after and between every other *)
Kinds == {pfi(0), pfi(1), mei(<<0, 9, 0, 200>>), rt(sKey), cd(BytesOf(<<0, 38, 1>>)), up(sKey, sA)}
Pairs == {s \in Kinds \X Kinds : s[1].k # s[2].k \/ s[1].k = "up"}
Triples == {s \in Kinds \X Kinds \X Kinds : /\ \E i \in 1..3 : s[i] = pfi(1)
                                           /\ s[1].k # s[2].k /\ s[2].k # s[3].k /\ s[1].k # s[3].k}
PubProps ==
  {<<>>, <<pfi(0)>>, <<pfi(1)>>, <<mei(<<0, 0, 0, 1>>)>>, <<mei(<<255, 254, 253, 252>>)>>, <<rt(sKey)>>,
   <<cd(BytesOf(<<0, 255, 128>>))>>, <<cd(<<>>)>>, <<up(sA, sUni)>>,
   <<pfi(1), mei(<<1, 2, 3, 4>>), rt(sUni), cd(<<<<7, 3>>>>), up(sA, sKey), up(sA, sKey)>>,
   <<up(sKey, sA), cd(<<<<0, 2>>>>), pfi(0), up(sA, sKey), rt(sA), mei(<<128, 0, 0, 0>>)>>,
   <<up(sLong, sLong)>>, <<up(sQuote, sQuote), rt(sQuote)>>,
   <<mei(<<0, 0, 0, 0>>)>>, <<mei(<<127, 255, 255, 255>>)>>, <<mei(<<0, 0, 1, 0>>)>>, <<mei(<<255, 255, 255, 255>>)>>,
   <<cd(AllBytes)>>, <<up(<<>>, <<>>)>>, <<up(<<>>, sA), up(sA, <<>>)>>}
   \cup {<<up(s, s), rt(s), cd(s)>> : s \in Odd} \cup {<<up(sWild, sWild)>>} \cup Pairs
Ids0 == {1, 2, 127, 128, 255, 256, 32767, 65535}

Connacks == {EncConnack(sp, 0, ps) : sp \in BOOLEAN, ps \in AckProps}
       \cup {EncConnack(FALSE, rc, <<>>) : rc \in DOMAIN ConnackRc}
       \cup {EncConnack(FALSE, 135, ps) : ps \in AckProps}
Publishes == {EncPublishS(FALSE, q, r, sA, 5, ps, sKey) : q \in {0, 1}, r \in BOOLEAN, ps \in PubProps}
        \cup {EncPublishS(FALSE, q, FALSE, s, 6, ps, s) : q \in {0, 1}, s \in Odd, ps \in {<<>>, <<pfi(1)>>}}
        \cup {EncPublishS(FALSE, 0, FALSE, sA, 0, <<>>, AllBytes)}
        \cup {EncPublishS(d, 1, r, t, id, <<>>, pl) : d \in BOOLEAN, r \in BOOLEAN, t \in {sA, sUni, sLong, sQuote},
                                                      id \in {1, 258, 65535}, pl \in {<<>>, sUni}}
        \cup {EncPublishS(FALSE, 1, TRUE, sA, id, <<>>, <<<<0, 1>>>>) : id \in Ids0}
        \cup {EncPublishS(FALSE, 0, FALSE, sA, 0, <<P("pfi", <<<<x, 1>>>>, <<>>)>>, pl) : x \in {0, 1},
               pl \in {<<>>, sUni, sQuote, <<<<120, 300>>>>, <<<<0, 1>>>>}}
        \cup {EncPublishS(FALSE, 1, FALSE, sA, 7, ps, sUni) : ps \in Triples}
        \cup {EncPublishS(FALSE, 0, FALSE, sA, 0, <<>>, pl) : pl \in {<<<<255, 1>>>>, <<<<128, 129>>>>, BytesOf(<<195, 40>>)}}
Pubacks == {EncPubackS(id, 0, <<>>, 0) : id \in Ids0}
      \cup {EncPubackS(3, rc, <<>>, f) : rc \in PubackRc, f \in {1, 2}}
      \cup {EncPubackS(3, rc, ps, 2) : rc \in {0, 16}, ps \in AckProps}
Subacks == {EncSubackS(9, 3, rc, <<>>) : rc \in DOMAIN SubackRc} \cup {EncSubackS(9, 4, 1, ps) : ps \in AckProps}
      \cup {EncSubackS(9, id, 0, <<>>) : id \in Ids0}
Unsubacks == {EncSubackS(11, 3, rc, <<>>) : rc \in DOMAIN UnsubackRc} \cup {EncSubackS(11, 4, 0, ps) : ps \in AckProps}
      \cup {EncSubackS(11, id, 17, <<>>) : id \in Ids0}
Disconnects == {EncDisconnectS(0, <<>>, 0)} \cup {EncDisconnectS(rc, <<>>, f) : rc \in DisconnectRc, f \in {1, 2}}
      \cup {EncDisconnectS(rc, ps, 2) : rc \in {0, 139}, ps \in AckProps}
Good == Connacks \cup Publishes \cup Pubacks \cup Subacks \cup Unsubacks \cup Disconnects \cup {PingResp}

ASSUME \A f \in Good : DecS(f).v = "ok"
ASSUME \A id \in Ids0, ps \in PubProps : LET d == DecS(EncPublishS(TRUE, 1, TRUE, sUni, id, ps, sKey)) IN
         d.n.topic = sUni /\ d.n.pl = sKey /\ d.n.props = ps /\ d.id = id /\ d.n.dup /\ d.n.retain
ASSUME \A rc \in DOMAIN SubackRc, ps \in AckProps : LET d == DecS(EncSubackS(9, 77, rc, ps)) IN
         d.n.props = ps /\ d.n.id = 77 /\ d.n.rc = SubackRc[rc]
ASSUME \A ps \in PubProps, q \in 0..2, t \in {sA, sUni, sLong, <<<<97, 65535>>>>} :
         LET c == [k |-> "pub", topic |-> t, pl |-> sUni, txt |-> TRUE, qos |-> q, props |-> ps]
             d == DecC(EncCmd(c, 9)) IN
         d.ok /\ d.ty = 3 /\ d.topic = t /\ d.pl = sUni /\ d.qos = q /\ d.props = <<PfiOf(c)>> \o ps
-----------------------------------------------------------------------------
(* corruptions *)
Body(f) == Open(f).b
First(f) == Hd(f)
Put(r, i, b) == LET s == Split(r, i - 1) IN Cat(s.a, Cat(<<<<b, 1>>>>, Tl(s.z)))
At(r, i) == Hd(Split(r, i - 1).z)
BodyLens(f) == 1..RLen(Body(f))
Cut(f) == {Frame(First(f), Split(Body(f), k - 1).a) : k \in BodyLens(f)}
Ext(f) == {Frame(First(f), Cat(Body(f), x)) : x \in {<<<<0, 1>>>>, <<<<255, 1>>>>, <<<<1, 4>>>>}}
Vals == {0, 1, 2, 3, 5, 11, 23, 37, 38, 42, 43, 127, 128, 129, 192, 194, 237, 244, 255}
Swap(f) == {Frame(First(f), Put(Body(f), i, v)) : i \in BodyLens(f), v \in Vals}
Near(f) == {Frame(First(f), Put(Body(f), i, (At(Body(f), i) + d) % 256)) : i \in BodyLens(f), d \in {1, 255}}
Heads(f) == {Frame(h, Body(f)) : h \in 0..255}
Pad(n, k) == CASE k = 2 -> <<<<128 + n, 1>>, <<0, 1>>>> [] k = 3 -> FromSeq(<<128 + n, 128, 0>>)
               [] k = 4 -> FromSeq(<<128 + n, 128, 128, 0>>) [] k = 5 -> FromSeq(<<128 + n, 128, 128, 128, 0>>)
               [] k = 6 -> FromSeq(<<128 + n, 128, 128, 128, 128, 1>>)
Longer(f) == {Cat(<<<<First(f), 1>>>>, Cat(Pad(RLen(Body(f)), k), Body(f))) : k \in 2..6}
Seeds0 == {EncConnack(TRUE, 0, <<rs(sKey), up(sA, sA)>>),
           EncPublishS(FALSE, 1, FALSE, sKey, 258, <<P("pfi", <<<<1, 1>>>>, <<>>), P("mei", BytesOf(<<1, 2, 3, 4>>), <<>>), up(sA, sA)>>, sUni),
           EncPublishS(FALSE, 0, FALSE, sUni, 0, <<P("rt", sA, <<>>), P("cd", <<<<9, 2>>>>, <<>>)>>, sA),
           EncPubackS(1, 16, <<rs(sA), up(sA, sA)>>, 2),
           EncSubackS(9, 1, 1, <<up(sA, sA), rs(sA)>>),
           EncSubackS(11, 1, 17, <<up(sA, sA)>>),
           EncDisconnectS(0, <<rs(sA), up(sA, sA)>>, 2),
           EncDisconnectS(0, <<>>, 1),
           EncSubackS(9, 1, 0, <<>>), EncPubackS(1, 0, <<>>, 0), EncConnack(FALSE, 0, <<>>),
           EncPublishS(FALSE, 1, FALSE, sA, 1, <<>>, <<>>)}
Short(f) == RLen(f) < 100
Mutants == UNION {Cut(f) \cup Ext(f) \cup Swap(f) \cup Near(f) \cup Longer(f) : f \in {g \in Seeds0 : Short(g)}}
      \cup UNION {Heads(f) : f \in {EncSubackS(9, 1, 0, <<>>), EncPublishS(FALSE, 1, FALSE, sA, 1, <<>>, <<>>), PingResp}}
      \cup {Frame(h, <<>>) : h \in 0..255}
      \cup {Frame(h, U16(1)) : h \in {16, 32, 48, 50, 52, 80, 98, 112, 130, 144, 162, 176, 192, 208, 224, 240}}
Special == { EncPublishS(FALSE, 2, FALSE, sA, 1, <<>>, sA), EncPublishS(FALSE, 1, FALSE, sA, 0, <<>>, sA),
             EncPublishS(FALSE, 3, FALSE, sA, 1, <<>>, sA),
             EncPubackS(0, 0, <<>>, 0), EncSubackS(9, 0, 0, <<>>), EncSubackS(11, 0, 0, <<>>),
             EncPublishS(FALSE, 0, FALSE, BytesOf(<<237, 160, 128>>), 0, <<>>, sA),
             EncPublishS(FALSE, 0, FALSE, BytesOf(<<192, 128>>), 0, <<>>, sA),
             EncPublishS(FALSE, 0, FALSE, BytesOf(<<244, 144, 128, 128>>), 0, <<>>, sA),
             EncPublishS(FALSE, 0, FALSE, BytesOf(<<97, 195>>), 0, <<>>, sA),
             EncPublishS(FALSE, 0, FALSE, sA, 0, <<P("pfi", <<<<1, 1>>>>, <<>>)>>, BytesOf(<<97, 128>>)),
             EncPublishS(FALSE, 1, FALSE, sA, 4, <<P("pfi", <<<<1, 1>>>>, <<>>)>>, BytesOf(<<240, 159, 152>>)),
             EncPublishS(FALSE, 1, FALSE, sA, 4, <<up(sA, sKey), pfi(1)>>, BytesOf(<<240, 159, 152>>)),
             EncPublishS(FALSE, 0, FALSE, sA, 0, <<mei(<<0, 0, 0, 1>>), rt(sA), pfi(1)>>, BytesOf(<<255>>)),
             EncPublishS(FALSE, 0, FALSE, sA, 0, <<up(BytesOf(<<97, 255>>), sA)>>, sA),
             EncPublishS(FALSE, 0, FALSE, sA, 0, <<up(sA, BytesOf(<<195>>))>>, sA),
             EncPublishS(FALSE, 1, FALSE, sA, 3, <<rt(BytesOf(<<128>>))>>, sA),
             EncSubackS(9, 3, 0, <<rs(BytesOf(<<97, 237, 160, 128>>))>>), EncSubackS(11, 3, 0, <<up(BytesOf(<<254>>), sA)>>),
             EncPubackS(3, 0, <<rs(BytesOf(<<192, 128>>))>>, 2), EncDisconnectS(0, <<rs(BytesOf(<<255>>))>>, 2),
             EncConnack(FALSE, 0, <<rs(BytesOf(<<255>>))>>),
             EncPublishS(FALSE, 0, FALSE, BytesOf(<<237, 191, 191>>), 0, <<>>, sA), EncPublishS(FALSE, 0, FALSE, BytesOf(<<248, 136, 128, 128, 128>>), 0, <<>>, sA),
             EncPublishS(FALSE, 0, FALSE, BytesOf(<<224, 128, 175>>), 0, <<>>, sA), EncPublishS(FALSE, 0, FALSE, BytesOf(<<240, 128, 128, 175>>), 0, <<>>, sA),
             Cat(<<<<192, 1>>>>, <<<<0, 1>>>>), Cat(<<<<240, 1>>>>, <<<<0, 1>>>>) }

BadOnes == (Mutants \cup Special) \ Good
Line(f, g) == [d |-> f, v |-> DecS(f).v, ty |-> First(f) \div 16, good |-> g]
Lines(s, g) == [i \in 1..Len(s) |-> Line(s[i], g)]
Write(s) == ndJsonSerialize(IOEnv.OUT, s)
ASSUME LET gs == SetToSeq(Good)
           bs == SetToSeq(BadOnes) IN
       Write(Lines(gs, TRUE) \o Lines(bs, FALSE))
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
