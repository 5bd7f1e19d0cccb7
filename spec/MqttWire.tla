------------------------------ MODULE MqttWire ------------------------------
(***************************************************************************)
(* MQTT 5 on the wire, as far as this client has to do with it.            *)
(*                                                                         *)
(* DecC reads a packet a client wrote, strictly: anything the standard     *)
(* does not allow is refused.  DecS reads a packet a broker sent and says  *)
(*   "ok"    well-formed, and the client supports all of it                *)
(*   "bad"   malformed, or not supported: the connection has to end        *)
(*   "lax"   the standard objects to a detail, or uses an optional property*)
(*           the client does not know: nothing is demanded                 *)
(* The Enc operators write packets; they drive the model and the vectors.  *)
(***************************************************************************)
LOCAL INSTANCE Naturals
LOCAL INSTANCE Sequences
LOCAL INSTANCE TLC
INSTANCE Runs

-----------------------------------------------------------------------------
(* integers *)
U16(n) == FromSeq(<<n \div 256, n % 256>>)
RECURSIVE Vbi(_)
Vbi(n) == IF n < 128 THEN <<<<n, 1>>>>
          ELSE Cat(<<<<128 + (n % 128), 1>>>>, Vbi(n \div 128))
VbiMax == 268435455

No == [ok |-> FALSE, v |-> 0, z |-> <<>>, min |-> TRUE]
RdByte(r) == IF r = <<>> THEN No ELSE [ok |-> TRUE, v |-> Hd(r), z |-> Tl(r), min |-> TRUE]
RdU16(r) ==
  LET a == RdByte(r) b == RdByte(a.z) IN
  IF a.ok /\ b.ok THEN [ok |-> TRUE, v |-> a.v * 256 + b.v, z |-> b.z, min |-> TRUE] ELSE No
RECURSIVE RdVbiAt(_, _, _, _)
RdVbiAt(r, k, mul, acc) ==
  IF r = <<>> \/ k > 4 THEN No
  ELSE LET b == Hd(r) v == acc + (b % 128) * mul IN
    IF b < 128 THEN [ok |-> TRUE, v |-> v, z |-> Tl(r), min |-> k = 1 \/ b > 0]
    ELSE IF k = 4 THEN No
    ELSE RdVbiAt(Tl(r), k + 1, mul * 128, v)
(* min: written with as few bytes as possible *)
RdVbi(r) == RdVbiAt(r, 1, 1, 0)

NoB == [ok |-> FALSE, v |-> <<>>, z |-> <<>>]
RdFix(r, n) == LET s == Split(r, n) IN
  IF s.ok THEN [ok |-> TRUE, v |-> s.a, z |-> s.z] ELSE NoB
RdBin(r) == LET n == RdU16(r) IN IF n.ok THEN RdFix(n.z, n.v) ELSE NoB
RdStr(r) == LET b == RdBin(r) IN IF b.ok /\ Utf8(b.v) THEN b ELSE NoB

Str(s) == Cat(U16(RLen(s)), s)
-----------------------------------------------------------------------------
(* properties: identifier -> name and type *)
PropTab ==
  1 :> <<"pfi", "u8">> @@ 2 :> <<"mei", "u32">> @@ 3 :> <<"ct", "str">> @@
  8 :> <<"rt", "str">> @@ 9 :> <<"cd", "bin">> @@ 11 :> <<"si", "vbi">> @@
  17 :> <<"sei", "u32">> @@ 18 :> <<"aci", "str">> @@ 19 :> <<"ska", "u16">> @@
  21 :> <<"am", "str">> @@ 22 :> <<"ad", "bin">> @@ 23 :> <<"rpi", "u8">> @@
  24 :> <<"wdi", "u32">> @@ 25 :> <<"rri", "u8">> @@ 26 :> <<"ri", "str">> @@
  28 :> <<"sr", "str">> @@ 31 :> <<"rs", "str">> @@ 33 :> <<"rm", "u16">> @@
  34 :> <<"tam", "u16">> @@ 35 :> <<"ta", "u16">> @@ 36 :> <<"mq", "u8">> @@
  37 :> <<"ra", "u8">> @@ 38 :> <<"up", "pair">> @@ 39 :> <<"mps", "u32">> @@
  40 :> <<"wsa", "u8">> @@ 41 :> <<"sia", "u8">> @@ 42 :> <<"ssa", "u8">>
PropId(k) == CHOOSE i \in DOMAIN PropTab : PropTab[i][1] = k

P(k, a, b) == [k |-> k, a |-> a, b |-> b]
EncProp(p) ==
  LET ty == PropTab[PropId(p.k)][2] id == <<<<PropId(p.k), 1>>>> IN
  CASE ty \in {"u8", "u16", "u32", "vbi"} -> Cat(id, p.a)
    [] ty \in {"str", "bin"} -> Cat(id, Str(p.a))
    [] ty = "pair" -> Cat(id, Cat(Str(p.a), Str(p.b)))
RECURSIVE EncPropList(_)
EncPropList(ps) == IF ps = <<>> THEN <<>> ELSE Cat(EncProp(Head(ps)), EncPropList(Tail(ps)))
EncProps(ps) == LET b == EncPropList(ps) IN Cat(Vbi(RLen(b)), b)

RdProp(r) ==
  LET i == RdByte(r) IN
  IF ~i.ok \/ i.v \notin DOMAIN PropTab
    THEN [ok |-> FALSE, id |-> 0, p |-> P("none", <<>>, <<>>), z |-> <<>>]
  ELSE
    LET t == PropTab[i.v]
        one(x) == [ok |-> x.ok, id |-> i.v, p |-> P(t[1], x.v, <<>>), z |-> x.z] IN
    CASE t[2] = "u8" -> one(RdFix(i.z, 1))
      [] t[2] = "u16" -> one(RdFix(i.z, 2))
      [] t[2] = "u32" -> one(RdFix(i.z, 4))
      [] t[2] = "vbi" -> LET v == RdVbi(i.z) IN
           [ok |-> v.ok, id |-> i.v, p |-> P(t[1], IF v.ok THEN Vbi(v.v) ELSE <<>>, <<>>), z |-> v.z]
      [] t[2] = "str" -> one(RdStr(i.z))
      [] t[2] = "bin" -> one(RdBin(i.z))
      [] t[2] = "pair" ->
           LET x == RdStr(i.z) y == RdStr(x.z) IN
           [ok |-> x.ok /\ y.ok, id |-> i.v, p |-> P(t[1], x.v, y.v), z |-> y.z]

RECURSIVE RdPropList(_, _)
RdPropList(r, acc) ==
  IF r = <<>> THEN [ok |-> TRUE, ps |-> acc]
  ELSE LET x == RdProp(r) IN
    IF ~x.ok THEN [ok |-> FALSE, ps |-> acc]
    ELSE RdPropList(x.z, Append(acc, [id |-> x.id, p |-> x.p]))

(* a property block: ps is a sequence of [id, p] *)
RdProps(r) ==
  LET n == RdVbi(r) b == IF n.ok THEN RdFix(n.z, n.v) ELSE NoB
      l == IF b.ok THEN RdPropList(b.v, <<>>) ELSE [ok |-> FALSE, ps |-> <<>>]
  IN [ok |-> l.ok, ps |-> l.ps, z |-> b.z, min |-> n.min]

Ps(l) == [i \in 1..Len(l) |-> l[i].p]
Ids(l) == {l[i].id : i \in 1..Len(l)}
(* only user properties and subscription identifiers may be repeated *)
NoDup(l) == \A i, j \in 1..Len(l) : i # j /\ l[i].id = l[j].id => l[i].id \in {38, 11}
-----------------------------------------------------------------------------
(* reason codes, with the names the client gives them in notifications *)
ConnackRc ==
  0 :> "success" @@ 128 :> "unspecifiederror" @@ 129 :> "malformedpacket" @@
  130 :> "protocolerror" @@ 131 :> "implementationspecificerror" @@
  132 :> "unsupportedprotocolversion" @@ 133 :> "clientidentifiernotvalid" @@
  134 :> "badusernameorpassword" @@ 135 :> "notauthorized" @@
  136 :> "serverunavailable" @@ 137 :> "serverbusy" @@ 138 :> "banned" @@
  140 :> "badauthenticationmethod" @@ 144 :> "topicnameinvalid" @@
  149 :> "packettoolarge" @@ 151 :> "quotaexceeded" @@
  153 :> "payloadformatinvalid" @@ 154 :> "retainnotsupported" @@
  155 :> "qosnotsupported" @@ 156 :> "useanotherserver" @@
  157 :> "servermoved" @@ 159 :> "connectionrateexceeded"
SubackRc ==
  0 :> "qos0" @@ 1 :> "qos1" @@ 2 :> "qos2" @@ 128 :> "unspecifiederror" @@
  131 :> "implementationspecificerror" @@ 135 :> "notauthorized" @@
  143 :> "topicfilterinvalid" @@ 145 :> "packetidentifierinuse" @@
  151 :> "quotaexceeded" @@ 158 :> "sharedsubsnotsupported" @@
  161 :> "subidsnotsupported" @@ 162 :> "wildcardsubsnotsupported"
UnsubackRc ==
  0 :> "success" @@ 17 :> "nosubscriptionexisted" @@ 128 :> "unspecifiederror" @@
  131 :> "implementationspecificerror" @@ 135 :> "notauthorized" @@
  143 :> "topicfilterinvalid" @@ 145 :> "packetidentifierinuse"
PubackRc == {0, 16, 128, 131, 135, 144, 145, 151, 153}
DisconnectRc == {0, 4} \cup (128..131) \cup {135, 137, 139} \cup (141..144) \cup (147..162)
-----------------------------------------------------------------------------
(* frames *)
Frame(first, body) == Cat(<<<<first, 1>>>>, Cat(Vbi(RLen(body)), body))

(* type and flags of the first byte, and the body; ok is FALSE unless the
   length field is good and says exactly what is there *)
Open(f) ==
  LET h == RdByte(f) n == RdVbi(h.z) IN
  [ok |-> h.ok /\ n.ok /\ RLen(n.z) = n.v, ty |-> h.v \div 16, fl |-> h.v % 16,
   b |-> n.z, min |-> n.min]
-----------------------------------------------------------------------------
(* what a client may write *)

BadC == [ok |-> FALSE, ty |-> 0]

DecConnect(o) ==
  LET n == RdStr(o.b)
      v == RdByte(n.z) fl == RdByte(v.z) ka == RdU16(fl.z)
      ps == RdProps(ka.z) ci == RdStr(ps.z)
      will == (fl.v \div 4) % 2 = 1
      wp == IF will THEN RdProps(ci.z) ELSE [ok |-> TRUE, ps |-> <<>>, z |-> ci.z, min |-> TRUE]
      wt == IF will THEN RdStr(wp.z) ELSE [ok |-> TRUE, v |-> <<>>, z |-> wp.z]
      wb == IF will THEN RdBin(wt.z) ELSE [ok |-> TRUE, v |-> <<>>, z |-> wt.z]
      us == IF fl.v >= 128 THEN RdStr(wb.z) ELSE [ok |-> TRUE, v |-> <<>>, z |-> wb.z]
      pw == IF (fl.v \div 64) % 2 = 1 THEN RdBin(us.z) ELSE [ok |-> TRUE, v |-> <<>>, z |-> us.z]
      ok == /\ o.fl = 0
            /\ n.ok /\ n.v = FromSeq(<<77, 81, 84, 84>>)
            /\ v.ok /\ v.v = 5
            /\ fl.ok /\ fl.v % 2 = 0
            /\ ~will => (fl.v \div 8) % 8 = 0
            /\ (fl.v \div 8) % 4 < 3
            /\ ka.ok
            /\ ps.ok /\ ps.min /\ NoDup(ps.ps)
            /\ Ids(ps.ps) \subseteq {17, 21, 22, 23, 25, 33, 34, 38, 39}
            /\ ci.ok /\ wp.ok /\ wt.ok /\ wb.ok /\ us.ok /\ pw.ok
            /\ pw.z = <<>>
  IN IF ok THEN [ok |-> TRUE, ty |-> 1, clean |-> (fl.v \div 2) % 2 = 1, ka |-> ka.v, cid |-> ci.v]
     ELSE BadC

DecPublishC(o) ==
  LET q == (o.fl \div 2) % 4
      t == RdStr(o.b)
      id == IF q > 0 THEN RdU16(t.z) ELSE [ok |-> TRUE, v |-> 0, z |-> t.z]
      ps == RdProps(id.z)
      ok == /\ q < 3 /\ t.ok /\ id.ok
            /\ ps.ok /\ ps.min
            /\ Ids(ps.ps) \subseteq {1, 2, 3, 8, 9, 35, 38}
  IN IF ok THEN [ok |-> TRUE, ty |-> 3, qos |-> q, dup |-> o.fl >= 8, retain |-> o.fl % 2 = 1,
                 topic |-> t.v, id |-> id.v, props |-> Ps(ps.ps), pl |-> ps.z]
     ELSE BadC

DecPubackC(o) ==
  LET id == RdU16(o.b)
      rc == IF id.z = <<>> THEN [ok |-> TRUE, v |-> 0, z |-> <<>>] ELSE RdByte(id.z)
      ps == IF rc.z = <<>> THEN [ok |-> TRUE, ps |-> <<>>, z |-> <<>>, min |-> TRUE] ELSE RdProps(rc.z)
      ok == /\ o.fl = 0 /\ id.ok /\ id.v > 0 /\ rc.ok /\ rc.v \in PubackRc
            /\ ps.ok /\ ps.min /\ ps.z = <<>> /\ Ids(ps.ps) \subseteq {31, 38}
  IN IF ok THEN [ok |-> TRUE, ty |-> 4, id |-> id.v, rc |-> rc.v] ELSE BadC

DecSubscribe(o) ==
  LET id == RdU16(o.b) ps == RdProps(id.z) t == RdStr(ps.z) op == RdByte(t.z)
      ok == /\ o.fl = 2 /\ id.ok /\ ps.ok /\ ps.min /\ Ids(ps.ps) \subseteq {11, 38}
            /\ t.ok /\ op.ok /\ op.z = <<>> /\ op.v % 4 < 3 /\ op.v < 48
  IN IF ok THEN [ok |-> TRUE, ty |-> 8, id |-> id.v, topic |-> t.v, qos |-> op.v % 4,
                 plain |-> op.v < 4 /\ ps.ps = <<>>]
     ELSE BadC

DecUnsubscribe(o) ==
  LET id == RdU16(o.b) ps == RdProps(id.z) t == RdStr(ps.z)
      ok == /\ o.fl = 2 /\ id.ok /\ ps.ok /\ ps.min /\ Ids(ps.ps) \subseteq {38}
            /\ t.ok /\ t.z = <<>>
  IN IF ok THEN [ok |-> TRUE, ty |-> 10, id |-> id.v, topic |-> t.v] ELSE BadC

DecDisconnectC(o) ==
  LET rc == IF o.b = <<>> THEN [ok |-> TRUE, v |-> 0, z |-> <<>>] ELSE RdByte(o.b)
      ps == IF rc.z = <<>> THEN [ok |-> TRUE, ps |-> <<>>, z |-> <<>>, min |-> TRUE] ELSE RdProps(rc.z)
      ok == /\ o.fl = 0 /\ rc.ok /\ ps.ok /\ ps.z = <<>>
            /\ Ids(ps.ps) \subseteq {17, 31, 38}
  IN IF ok THEN [ok |-> TRUE, ty |-> 14, rc |-> rc.v] ELSE BadC

DecC(f) ==
  LET o == Open(f) IN
  IF ~o.ok \/ ~o.min THEN BadC
  ELSE CASE o.ty = 1 -> DecConnect(o)
         [] o.ty = 3 -> DecPublishC(o)
         [] o.ty = 4 -> DecPubackC(o)
         [] o.ty = 8 -> DecSubscribe(o)
         [] o.ty = 10 -> DecUnsubscribe(o)
         [] o.ty = 12 -> IF o.fl = 0 /\ o.b = <<>> THEN [ok |-> TRUE, ty |-> 12] ELSE BadC
         [] o.ty = 14 -> DecDisconnectC(o)
         [] OTHER -> BadC

(* the packet for a command [k, topic, pl, txt, qos, props] *)
PfiOf(c) == P("pfi", <<<<IF c.txt THEN 1 ELSE 0, 1>>>>, <<>>)
EncCmd(c, id) ==
  CASE c.k = "pub" ->
         Frame(48 + 2 * c.qos,
               CatAll(<<Str(c.topic), IF c.qos > 0 THEN U16(id) ELSE <<>>,
                        EncProps(<<PfiOf(c)>> \o c.props), c.pl>>))
    [] c.k = "sub" -> Frame(130, CatAll(<<U16(id), <<<<0, 1>>>>, Str(c.topic), <<<<c.qos, 1>>>>>>))
    [] c.k = "unsub" -> Frame(162, CatAll(<<U16(id), <<<<0, 1>>>>, Str(c.topic)>>))
    [] c.k = "disc" -> Frame(224, <<<<0, 1>>>>)
EncConnect(ka, cid) ==
  Frame(16, CatAll(<<Str(FromSeq(<<77, 81, 84, 84>>)), FromSeq(<<5, 2>>), U16(ka), <<<<0, 1>>>>, Str(cid)>>))
EncPuback(id) == Frame(64, Cat(U16(id), <<<<0, 1>>>>))
PingReq == FromSeq(<<192, 0>>)
PingResp == FromSeq(<<208, 0>>)
-----------------------------------------------------------------------------
(* what a broker may send *)

S(v, ty) == [v |-> v, ty |-> ty, id |-> 0, n |-> [k |-> "none"], rc |-> 0]
Worse(bad, lax) == IF bad THEN "bad" ELSE IF lax THEN "lax" ELSE "ok"

Clean(s) == ~HasByte(s, 0)
CleanProps(l) == \A i \in 1..Len(l) :
  PropTab[l[i].id][2] \in {"str", "pair"} => Clean(l[i].p.a) /\ Clean(l[i].p.b)
Wild(t) == HasByte(t, 35) \/ HasByte(t, 43)

AckNote(k, id, sp, rc, l) == [k |-> k, id |-> id, sp |-> sp, rc |-> rc, props |-> Ps(l)]

DecConnack(o) ==
  LET fl == RdByte(o.b) rc == RdByte(fl.z) ps == RdProps(rc.z)
      bad == \/ ~fl.ok \/ fl.v > 1
             \/ ~rc.ok \/ rc.v \notin DOMAIN ConnackRc
             \/ ~ps.ok
             \/ ~(Ids(ps.ps) \subseteq {17, 18, 19, 21, 22, 26, 28, 31, 33, 34, 36, 37, 38, 39, 40, 41, 42})
      lax == \/ o.fl # 0 \/ ~o.min \/ ~ps.min \/ ps.z # <<>>
             \/ ~(Ids(ps.ps) \subseteq {31, 38}) \/ ~NoDup(ps.ps) \/ ~CleanProps(ps.ps)
             \/ (fl.v = 1 /\ rc.v # 0)
  IN IF bad THEN S("bad", 2)
     ELSE [v |-> Worse(FALSE, lax), ty |-> 2, id |-> 0, rc |-> rc.v,
           n |-> AckNote("connack", 0, fl.v = 1, ConnackRc[rc.v], ps.ps)]

DecPublishS(o) ==
  LET q == (o.fl \div 2) % 4
      t == RdStr(o.b)
      id == IF q > 0 THEN RdU16(t.z) ELSE [ok |-> TRUE, v |-> 0, z |-> t.z]
      ps == RdProps(id.z)
      pfis == {ps.ps[i].p.a : i \in {j \in 1..Len(ps.ps) : ps.ps[j].id = 1}}
      txt == <<<<1, 1>>>> \in pfis
      bad == \/ q = 3 \/ ~t.ok \/ ~id.ok \/ (q > 0 /\ id.v = 0)
             \/ ~ps.ok \/ ~(Ids(ps.ps) \subseteq {1, 2, 3, 8, 9, 11, 35, 38})
             \/ (txt /\ ~Utf8(ps.z) /\ NoDup(ps.ps))
             \/ q = 2
      lax == \/ ~o.min \/ ~ps.min \/ (q = 0 /\ o.fl >= 8)
             \/ t.v = <<>> \/ ~Clean(t.v) \/ Wild(t.v)
             \/ ~(Ids(ps.ps) \subseteq {1, 2, 8, 9, 38}) \/ ~NoDup(ps.ps) \/ ~CleanProps(ps.ps)
             \/ (txt /\ ~Utf8(ps.z))
             \/ ~(pfis \subseteq {<<<<0, 1>>>>, <<<<1, 1>>>>})
             \/ \E i \in 1..Len(ps.ps) : ps.ps[i].id = 8 /\ Wild(ps.ps[i].p.a)
  IN IF bad THEN S("bad", 3)
     ELSE [v |-> Worse(FALSE, lax), ty |-> 3, id |-> id.v, rc |-> q,
           n |-> [k |-> "message", topic |-> t.v, txt |-> txt, pl |-> ps.z, props |-> Ps(ps.ps),
                  qos |-> q, retain |-> o.fl % 2 = 1, dup |-> o.fl >= 8, id |-> id.v]]

DecPubackS(o) ==
  LET id == RdU16(o.b)
      rc == IF id.z = <<>> THEN [ok |-> TRUE, v |-> 0, z |-> <<>>] ELSE RdByte(id.z)
      ps == IF rc.z = <<>> THEN [ok |-> TRUE, ps |-> <<>>, z |-> <<>>, min |-> TRUE] ELSE RdProps(rc.z)
      bad == \/ ~id.ok \/ id.v = 0 \/ ~rc.ok \/ rc.v \notin PubackRc
             \/ ~ps.ok \/ ~(Ids(ps.ps) \subseteq {31, 38})
      lax == o.fl # 0 \/ ~o.min \/ ~ps.min \/ ps.z # <<>> \/ ~NoDup(ps.ps) \/ ~CleanProps(ps.ps)
  IN IF bad THEN S("bad", 4)
     ELSE [v |-> Worse(FALSE, lax), ty |-> 4, id |-> id.v, rc |-> rc.v, n |-> [k |-> "none"]]

DecSubackS(o, k, tab) ==
  LET id == RdU16(o.b) ps == RdProps(id.z) rc == RdByte(ps.z)
      bad == \/ ~id.ok \/ id.v = 0
             \/ ~ps.ok \/ ~(Ids(ps.ps) \subseteq {31, 38})
             \/ ~rc.ok \/ rc.v \notin DOMAIN tab
      lax == \/ o.fl # 0 \/ ~o.min \/ ~ps.min \/ rc.z # <<>> \/ ~NoDup(ps.ps) \/ ~CleanProps(ps.ps)
  IN IF bad THEN S("bad", o.ty)
     ELSE [v |-> Worse(FALSE, lax), ty |-> o.ty, id |-> id.v, rc |-> rc.v,
           n |-> AckNote(k, id.v, FALSE, tab[rc.v], ps.ps)]

DecDisconnectS(o) ==
  LET rc == IF o.b = <<>> THEN [ok |-> TRUE, v |-> 0, z |-> <<>>] ELSE RdByte(o.b)
      ps == IF rc.z = <<>> THEN [ok |-> TRUE, ps |-> <<>>, z |-> <<>>, min |-> TRUE] ELSE RdProps(rc.z)
      bad == ~rc.ok \/ rc.v \notin DisconnectRc \/ ~ps.ok \/ ~(Ids(ps.ps) \subseteq {28, 31, 38})
      lax == \/ o.fl # 0 \/ ~o.min \/ ~ps.min \/ ps.z # <<>> \/ ~NoDup(ps.ps) \/ ~CleanProps(ps.ps)
             \/ 28 \in Ids(ps.ps)
  IN IF bad THEN S("bad", 14)
     ELSE [v |-> Worse(FALSE, lax), ty |-> 14, id |-> 0, rc |-> rc.v, n |-> [k |-> "none"]]

DecS(f) ==
  LET o == Open(f) IN
  IF ~o.ok THEN S("bad", 0)
  ELSE CASE o.ty = 2 -> DecConnack(o)
         [] o.ty = 3 -> DecPublishS(o)
         [] o.ty = 4 -> DecPubackS(o)
         [] o.ty = 9 -> DecSubackS(o, "suback", SubackRc)
         [] o.ty = 11 -> DecSubackS(o, "unsuback", UnsubackRc)
         [] o.ty = 13 -> S(Worse(FALSE, o.fl # 0 \/ o.b # <<>> \/ ~o.min), 13)
         [] o.ty = 14 -> DecDisconnectS(o)
         [] OTHER -> S("bad", o.ty)

EncConnack(sp, rc, ps) == Frame(32, CatAll(<<<<<<IF sp THEN 1 ELSE 0, 1>>>>, <<<<rc, 1>>>>, EncProps(ps)>>))
EncPublishS(dup, qos, retain, topic, id, ps, pl) ==
  Frame(48 + (IF dup THEN 8 ELSE 0) + 2 * qos + (IF retain THEN 1 ELSE 0),
        CatAll(<<Str(topic), IF qos > 0 THEN U16(id) ELSE <<>>, EncProps(ps), pl>>))
EncPubackS(id, rc, ps, form) ==
  Frame(64, CatAll(<<U16(id), IF form > 0 THEN <<<<rc, 1>>>> ELSE <<>>,
                     IF form > 1 THEN EncProps(ps) ELSE <<>>>>))
EncSubackS(ty, id, rc, ps) == Frame(ty * 16, CatAll(<<U16(id), EncProps(ps), <<<<rc, 1>>>>>>))
EncDisconnectS(rc, ps, form) ==
  Frame(224, CatAll(<<IF form > 0 THEN <<<<rc, 1>>>> ELSE <<>>, IF form > 1 THEN EncProps(ps) ELSE <<>>>>))
=============================================================================
