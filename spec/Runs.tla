-------------------------------- MODULE Runs --------------------------------
(***************************************************************************)
(* Byte strings as run lists: << <<byte, count>>, ... >>, adjacent runs    *)
(* with different bytes, counts positive.  A 256 MB payload of one byte is *)
(* one run, so the specification can talk about every size the protocol    *)
(* allows.  A run list is also used as a cursor: reading from the front    *)
(* yields a value and the rest.                                            *)
(***************************************************************************)
LOCAL INSTANCE Naturals
LOCAL INSTANCE Sequences

RECURSIVE SumRuns(_, _)
SumRuns(r, i) == IF i > Len(r) THEN 0 ELSE r[i][2] + SumRuns(r, i + 1)
RLen(r) == SumRuns(r, 1)

Hd(r) == r[1][1]
Tl(r) == IF r[1][2] = 1 THEN Tail(r)
         ELSE <<<<r[1][1], r[1][2] - 1>>>> \o Tail(r)

(* concatenation keeps run lists normal *)
Cat(r, s) ==
  IF r = <<>> THEN s
  ELSE IF s = <<>> THEN r
  ELSE IF r[Len(r)][1] = s[1][1]
       THEN SubSeq(r, 1, Len(r) - 1)
              \o <<<<s[1][1], r[Len(r)][2] + s[1][2]>>>> \o Tail(s)
       ELSE r \o s

RECURSIVE FromSeq(_)
FromSeq(b) == IF b = <<>> THEN <<>> ELSE Cat(<<<<b[1], 1>>>>, FromSeq(Tail(b)))
Rep(b, n) == IF n = 0 THEN <<>> ELSE <<<<b, n>>>>

RECURSIVE CatAll(_)
CatAll(ss) == IF ss = <<>> THEN <<>> ELSE Cat(Head(ss), CatAll(Tail(ss)))

(* the i-th run at which the first n bytes end, and the bytes left of it *)
RECURSIVE Seek(_, _, _)
Seek(r, n, i) ==
  IF i > Len(r) THEN [ok |-> n = 0, i |-> i, n |-> n]
  ELSE IF n < r[i][2] THEN [ok |-> TRUE, i |-> i, n |-> n]
  ELSE Seek(r, n - r[i][2], i + 1)

(* first n bytes and the rest; ok is FALSE when there are fewer *)
Split(r, n) ==
  LET k == Seek(r, n, 1) IN
  IF ~k.ok THEN [ok |-> FALSE, a |-> <<>>, z |-> <<>>]
  ELSE IF k.i > Len(r) THEN [ok |-> TRUE, a |-> r, z |-> <<>>]
  ELSE [ok |-> TRUE,
        a |-> SubSeq(r, 1, k.i - 1) \o Rep(r[k.i][1], k.n),
        z |-> (IF k.n = r[k.i][2] THEN <<>> ELSE <<<<r[k.i][1], r[k.i][2] - k.n>>>>)
                 \o SubSeq(r, k.i + 1, Len(r))]

HasByte(r, b) == \E i \in 1..Len(r) : r[i][1] = b

(***************************************************************************)
(* Well-formed UTF-8 (RFC 3629: no surrogates, no overlong forms, nothing  *)
(* above U+10FFFF).  s is <<bytes still needed, lowest and highest value   *)
(* allowed for the next one>>.  ASCII runs are skipped whole.              *)
(***************************************************************************)
RECURSIVE Utf8From(_, _)
Utf8From(r, s) ==
  IF r = <<>> THEN s[1] = 0
  ELSE LET b == Hd(r) IN
    IF s[1] > 0
      THEN b >= s[2] /\ b <= s[3] /\ Utf8From(Tl(r), <<s[1] - 1, 128, 191>>)
    ELSE IF b < 128 THEN Utf8From(Tail(r), s)
    ELSE IF b >= 194 /\ b <= 223 THEN Utf8From(Tl(r), <<1, 128, 191>>)
    ELSE IF b = 224 THEN Utf8From(Tl(r), <<2, 160, 191>>)
    ELSE IF b = 237 THEN Utf8From(Tl(r), <<2, 128, 159>>)
    ELSE IF b >= 225 /\ b <= 239 THEN Utf8From(Tl(r), <<2, 128, 191>>)
    ELSE IF b = 240 THEN Utf8From(Tl(r), <<3, 144, 191>>)
    ELSE IF b >= 241 /\ b <= 243 THEN Utf8From(Tl(r), <<3, 128, 191>>)
    ELSE IF b = 244 THEN Utf8From(Tl(r), <<3, 128, 143>>)
    ELSE FALSE
Utf8(r) == Utf8From(r, <<0, 0, 0>>)
=============================================================================
