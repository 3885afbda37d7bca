-------------------------------- MODULE Codec --------------------------------
(***************************************************************************)
(* Byte-level meaning of the extension data carried by an asset: when a    *)
(* byte string is a well formed instance of an extension type, what the    *)
(* lifecycle callbacks (creation / update) make of it, and what a royalty  *)
(* constraint evaluates to.  Byte strings are tuples of 0..255.            *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, Keys

Max32 == 2147483647
Lesser(a, b) == IF a < b THEN a ELSE b
Greater(a, b) == IF a > b THEN a ELSE b
Pad8(n) == ((n + 7) \div 8) * 8

\* little endian integers at a 0-based offset; values above 2^31-1 saturate
U32(d, o) == IF d[o+4] > 127 THEN Max32
             ELSE d[o+1] + 256 * d[o+2] + 65536 * d[o+3] + 16777216 * d[o+4]
U64(d, o) == IF d[o+5] + d[o+6] + d[o+7] + d[o+8] > 0 THEN Max32 ELSE U32(d, o)
B64(v) == << v % 256, (v \div 256) % 256, (v \div 65536) % 256, v \div 16777216, 0, 0, 0, 0 >>
B32(v) == << v % 256, (v \div 256) % 256, (v \div 65536) % 256, v \div 16777216 >>

KB(k) == KeyBytes[k]
\* name of the key stored at 0-based offset o
KeyAt(d, o) ==
    LET b == SubSeq(d, o + 1, o + 32)
        M == {k \in DOMAIN KeyBytes : KeyBytes[k] = b}
    IN IF M = {} THEN "?" ELSE CHOOSE k \in M : TRUE

-----------------------------------------------------------------------------
(* extension types *)
T_None == 0       T_Attributes == 1   T_Blob == 2       T_Creators == 3
T_Links == 4      T_Metadata == 5     T_Grouping == 6   T_Royalties == 7
T_Manager == 8    T_Proxy == 9        T_Properties == 10  T_Bucket == 11

\* a length-prefixed string starts at 0-based offset o
StrFits(d, o) == o + 1 <= Len(d) /\ o + 1 + d[o+1] <= Len(d)
StrEnd(d, o) == o + 1 + d[o+1]

RECURSIVE PairsOK(_, _)
PairsOK(d, o) ==
    IF o >= Len(d) THEN TRUE
    ELSE /\ StrFits(d, o)
         /\ StrFits(d, StrEnd(d, o))
         /\ PairsOK(d, StrEnd(d, StrEnd(d, o)))

RECURSIVE PropsOK(_, _)
PropsOK(d, o) ==
    IF o >= Len(d) THEN TRUE
    ELSE /\ StrFits(d, o)
         /\ LET v == StrEnd(d, o) IN
            /\ v + 1 <= Len(d)
            /\ CASE d[v+1] = 0 -> StrFits(d, v + 1) /\ PropsOK(d, StrEnd(d, v + 1))
                 [] d[v+1] = 1 -> v + 9 <= Len(d) /\ PropsOK(d, v + 9)
                 [] d[v+1] = 2 -> v + 2 <= Len(d) /\ PropsOK(d, v + 2)
                 [] OTHER -> FALSE

MetadataOK(d) ==
    /\ StrFits(d, 0)
    /\ StrFits(d, StrEnd(d, 0))
    /\ StrFits(d, StrEnd(d, StrEnd(d, 0)))
    /\ LET e == StrEnd(d, StrEnd(d, StrEnd(d, 0))) IN e >= Len(d) \/ StrFits(d, e)

-----------------------------------------------------------------------------
(* constraints: an 8-byte operator (type, size) followed by size bytes *)
OpAnd == 0  OpNot == 1  OpOr == 2  OpOwnedBy == 3  OpPubkeyMatch == 4  OpEmpty == 5

RECURSIVE ConstraintOK(_, _, _), ListOK(_, _, _)
\* a constraint starts at 0-based offset o and must fit before offset e
ConstraintOK(d, o, e) ==
    /\ e - o >= 8
    /\ o % 4 = 0
    /\ U32(d, o) <= 5
    /\ LET s == U32(d, o + 4) IN
       /\ s <= e - o - 8
       /\ CASE U32(d, o) \in {OpAnd, OpOr} -> ListOK(d, o + 8, o + 8 + s)
            [] U32(d, o) = OpNot -> ConstraintOK(d, o + 8, o + 8 + s)
            [] U32(d, o) \in {OpOwnedBy, OpPubkeyMatch} ->
                  s >= 8 /\ (o + 8) % 8 = 0 /\ (s - 8) % 32 = 0 /\ U64(d, o + 8) <= 2
            [] OTHER -> TRUE
ListOK(d, o, e) ==
    IF o >= e THEN TRUE
    ELSE ConstraintOK(d, o, e) /\ ListOK(d, o + 8 + U32(d, o + 4), e)

\* accts: the <<asset, authority, recipient>> keys; own: their programs;
\* emp: whether they hold no data
RECURSIVE Eval(_, _, _), EvalAll(_, _, _, _), EvalAny(_, _, _, _)
Eval(d, o, c) ==
    LET s == U32(d, o + 4)
        lo == o + 8
        hi == lo + s
        who == 1 + d[lo + 1]
        listed(x) == \E j \in 0..((s - 8) \div 32 - 1) : KeyAt(d, lo + 8 + 32 * j) = x
    IN CASE U32(d, o) = OpAnd -> EvalAll(d, lo, hi, c)
         [] U32(d, o) = OpOr -> EvalAny(d, lo, hi, c)
         [] U32(d, o) = OpNot -> ~ Eval(d, lo, c)
         [] U32(d, o) = OpOwnedBy -> listed(c.own[who]) /\ ~ c.emp[who]
         [] U32(d, o) = OpPubkeyMatch -> listed(c.accts[who])
         [] OTHER -> TRUE
EvalAll(d, o, e, c) ==
    IF o >= e THEN TRUE
    ELSE Eval(d, o, c) /\ EvalAll(d, o + 8 + U32(d, o + 4), e, c)
EvalAny(d, o, e, c) ==
    IF o >= e THEN FALSE
    ELSE Eval(d, o, c) \/ EvalAny(d, o + 8 + U32(d, o + 4), e, c)

\* constructors, used by the bounded models
COp(t, body) == B32(t) \o B32(Len(body)) \o body
CAnd(body) == COp(OpAnd, body)
COr(body) == COp(OpOr, body)
CNot(c) == COp(OpNot, c)
CEmpty == COp(OpEmpty, << >>)
COwnedBy(who, k) == COp(OpOwnedBy, B64(who) \o KB(k))
CMatch(who, k) == COp(OpPubkeyMatch, B64(who) \o KB(k))
CMatch2(who, k, l) == COp(OpPubkeyMatch, B64(who) \o KB(k) \o KB(l))

-----------------------------------------------------------------------------
(* creators: 34-byte entries (address, verified, share) *)
NCreators(d) == Len(d) \div 34
CrKey(d, j) == SubSeq(d, 34 * (j-1) + 1, 34 * (j-1) + 32)
CrVer(d, j) == d[34 * (j-1) + 33]
CrShare(d, j) == d[34 * (j-1) + 34]
RECURSIVE ShareRange(_, _, _)
ShareRange(d, i, j) == IF i > j THEN 0 ELSE IF i = j THEN CrShare(d, i)
                       ELSE ShareRange(d, i, (i + j) \div 2) + ShareRange(d, (i + j) \div 2 + 1, j)
ShareSum(d, j) == ShareRange(d, j, NCreators(d))
\* the creators data with the verified flags replaced by f(j)
WithFlags(d, f(_)) ==
    [p \in 1..Len(d) |-> IF p % 34 = 33 THEN f((p \div 34) + 1) ELSE d[p]]
\* creator entry for the models
Creator(k, v, s) == KB(k) \o << v, s >>

(* grouping: size, max size and, from 48 bytes on, a delegate *)
\* 64-bit numbers as their eight bytes, least significant first
RECURSIVE Le64(_, _, _)
Le64(a, b, j) == j = 0 \/ a[j] < b[j] \/ (a[j] = b[j] /\ Le64(a, b, j - 1))
RECURSIVE Inc64(_, _)
Inc64(a, j) == IF j > 8 THEN a ELSE IF a[j] < 255 THEN [a EXCEPT ![j] = @ + 1] ELSE Inc64([a EXCEPT ![j] = 0], j + 1)
RECURSIVE Dec64(_, _)
Dec64(a, j) == IF j > 8 THEN a ELSE IF a[j] > 0 THEN [a EXCEPT ![j] = @ - 1] ELSE Dec64([a EXCEPT ![j] = 255], j + 1)
Zero64 == << 0, 0, 0, 0, 0, 0, 0, 0 >>
GSize64(d) == SubSeq(d, 1, 8)
GMax64(d) == SubSeq(d, 9, 16)
\* the size is within the maximum (if one is set); there is room for one more
GWithin(d) == GMax64(d) = Zero64 \/ Le64(GSize64(d), GMax64(d), 8)
GRoom(d) == GMax64(d) = Zero64 \/ ~ Le64(GMax64(d), GSize64(d), 8)
GNone(d) == GSize64(d) = Zero64
GMore(d) == Inc64(GSize64(d), 1) \o SubSeq(d, 9, Len(d))
GLess(d) == Dec64(GSize64(d), 1) \o SubSeq(d, 9, Len(d))
GSize(d) == U64(d, 0)
GMax(d) == U64(d, 8)
GDelegate(d) == IF Len(d) < 48 THEN "SYS" ELSE KeyAt(d, 16)
SetGSize(d, v) == B64(v) \o SubSeq(d, 9, Len(d))
Grouping(m, k) == B64(0) \o B64(m) \o KB(k)

(* royalties: basis points and constraint *)
Royalties(bp, c) == B64(bp) \o c

(* manager: address and roles *)
ManagerData(k, r) == KB(k) \o << r >>
MgrKey(d) == KeyAt(d, 0)
MgrRoles(d) == d[33]

(* proxy: program, seeds (32), bump, authority *)
ProxyData(z, k) == KB(ProxyOf[z].prog) \o KB(ProxyOf[z].seed) \o << ProxyOf[z].bump >> \o KB(k)
ProxyAuth(d) == KeyAt(d, 65)

\* the data parses as an instance of extension type t
WellFormed(t, d) ==
    CASE t \in {T_Attributes, T_Links} -> PairsOK(d, 0)
      [] t = T_Blob -> StrFits(d, 0)
      [] t = T_Creators -> Len(d) % 34 = 0
      [] t = T_Metadata -> MetadataOK(d)
      [] t = T_Grouping -> Len(d) >= 16 /\ Len(d) <= 48
      [] t = T_Royalties -> Len(d) >= 8 /\ ConstraintOK(d, 8, Len(d))
      [] t = T_Manager -> Len(d) >= 33
      [] t = T_Proxy -> Len(d) = 97
      [] t = T_Properties -> PropsOK(d, 0)
      [] OTHER -> TRUE

\* rules an extension held by an asset obeys at all times
Valid(t, d) ==
    /\ WellFormed(t, d)
    /\ t = T_Creators => ShareSum(d, 1) = 100
    /\ t = T_Royalties => U64(d, 0) <= 10000
    /\ t = T_Grouping => GWithin(d)

\* creation callback; auth is the signing authority ("-" when there is none)
OnCreate(t, d, auth) ==
    IF ~ WellFormed(t, d) THEN [ok |-> FALSE, d |-> d]
    ELSE CASE t = T_Creators ->
                [ok |-> ShareSum(d, 1) = 100,
                 d |-> WithFlags(d, LAMBDA j : IF auth # "-" /\ CrKey(d, j) = KB(auth)
                                               THEN 1 ELSE 0)]
           [] t = T_Grouping -> [ok |-> GNone(d), d |-> d]
           [] t = T_Royalties -> [ok |-> U64(d, 0) <= 10000, d |-> d]
           [] OTHER -> [ok |-> TRUE, d |-> d]

\* update callback: c is the current data, d the new one
OnUpdate(t, c, d, auth) ==
    IF ~ WellFormed(t, d) THEN [ok |-> FALSE, d |-> d]
    ELSE CASE t = T_Creators ->
                LET old(k) == {j \in 1..NCreators(c) : CrKey(c, j) = k}
                    first(k) == CHOOSE j \in old(k) : \A l \in old(k) : j <= l
                    flag(j) == LET k == CrKey(d, j) IN
                               IF old(k) # {} THEN CrVer(c, first(k))
                               ELSE IF k = KB(auth) THEN 1 ELSE 0
                IN [ok |-> /\ ShareSum(d, 1) = 100
                           /\ \A j \in 1..NCreators(c) : CrVer(c, j) # 0 =>
                                 \E l \in 1..NCreators(d) : CrKey(d, l) = CrKey(c, j),
                    d |-> WithFlags(d, flag)]
           [] t = T_Grouping ->
                LET n == GSize64(c) \o SubSeq(d, 9, Len(d))
                IN [ok |-> GWithin(n), d |-> n]
           [] t = T_Royalties -> [ok |-> U64(d, 0) <= 10000, d |-> d]
           [] t = T_Proxy -> [ok |-> SubSeq(c, 1, 65) = SubSeq(d, 1, 65), d |-> d]
           [] OTHER -> [ok |-> TRUE, d |-> d]
=============================================================================
