--------------------------------- MODULE Ext ---------------------------------
(***************************************************************************)
(* The content of every extension type, its byte encoding and what a       *)
(* reader of these bytes sees.  Strings, keys and 64-bit numbers are byte  *)
(* strings; an option is << >> or << value >>.                             *)
(***************************************************************************)
EXTENDS Tree

Zero(n) == [j \in 1..n |-> 0]
PStr(s) == << Len(s) >> \o s
Opt(o, none) == IF o = << >> THEN none ELSE o[1]
\* values that mean "absent"
NonZero(b) == IF b = Zero(Len(b)) THEN << >> ELSE << b >>

EncX(t, c) ==
    CASE t \in {T_Attributes, T_Links} -> Cat([j \in 1..Len(c) |-> PStr(c[j].a) \o PStr(c[j].b)], 1)
      [] t = T_Blob -> PStr(c.ct) \o c.data
      [] t = T_Bucket -> c.data
      [] t = T_Creators -> Cat([j \in 1..Len(c) |-> c[j].key \o << c[j].ver, c[j].share >>], 1)
      [] t = T_Metadata -> Cat([j \in 1..4 |-> PStr(Opt(c[j], << >>))], 1)
      [] t = T_Grouping -> Zero(8) \o Opt(c.max, Zero(8)) \o Opt(c.del, Zero(32))
      [] t = T_Royalties -> c.bp \o Enc(c.tree)
      [] t = T_Manager -> c.key \o << c.roles >>
      [] t = T_Proxy -> c.prog \o c.seeds \o << c.bump >> \o Opt(c.auth, Zero(32))
      [] t = T_Properties -> Cat([j \in 1..Len(c) |-> PStr(c[j].name) \o << c[j].ty >>
                                     \o (IF c[j].ty = 0 THEN PStr(c[j].v) ELSE c[j].v)], 1)

First(c, P(_)) == CHOOSE j \in 1..Len(c) : P(j) /\ \A l \in 1..(j - 1) : ~ P(l)

\* what the reader must report; "gets" are the lookups by name
ViewX(t, c) ==
    CASE t = T_Attributes -> [list |-> c, gets |-> [j \in 1..Len(c) |-> c[First(c, LAMBDA l : c[l].a = c[j].a)].b]]
      [] t = T_Links -> [list |-> c]
      [] t \in {T_Blob, T_Bucket, T_Manager} -> c
      [] t = T_Creators -> [list |-> c, gets |-> [j \in 1..Len(c) |-> c[First(c, LAMBDA l : c[l].key = c[j].key)].share]]
      [] t = T_Metadata -> [j \in 1..4 |-> Opt(c[j], << >>)]
      [] t = T_Grouping -> [size |-> Zero(8), max |-> NonZero(Opt(c.max, Zero(8))), del |-> NonZero(Opt(c.del, Zero(32)))]
      [] t = T_Royalties -> [bp |-> c.bp, con |-> Enc(c.tree)]
      [] t = T_Proxy -> [c EXCEPT !.auth = NonZero(Opt(c.auth, Zero(32)))]
      [] t = T_Properties -> [list |-> c, gets |-> [j \in 1..Len(c) |-> c[First(c, LAMBDA l : c[l].name = c[j].name)].v]]

-----------------------------------------------------------------------------
(* an account: base fields, then the extensions, each with a header (type, *)
(* length, end) and padded to 8 bytes                                      *)
RECURSIVE LayFrom(_, _, _)
LayFrom(es, j, o) ==
    IF j > Len(es) THEN << >>
    ELSE LET d == IF es[j].raw THEN es[j].c ELSE EncX(es[j].t, es[j].c)
             e == Pad8(o + 16 + Len(d))
         IN B32(es[j].t) \o B32(Len(d)) \o B32(e) \o Zero(4) \o d \o Zero(e - o - 16 - Len(d))
            \o LayFrom(es, j + 1, e)
Lay(es) == << 1 >> \o Zero(167) \o LayFrom(es, 1, 168)
\* 0-based offset of the data of the j-th extension
RECURSIVE OffX(_, _)
LenX(e) == IF e.raw THEN Len(e.c) ELSE Len(EncX(e.t, e.c))
OffX(es, j) == IF j = 1 THEN 184 ELSE Pad8(OffX(es, j - 1) + LenX(es[j - 1])) + 16
=============================================================================
