------------------------------- MODULE L_jsext -------------------------------
(* Extensions written and read by the JavaScript client, alone and inside   *)
(* an account.  Its strings come without the NUL characters.                 *)
EXTENDS Contents

Text(s) == SelectSeq(s, LAMBDA b : b # 0)
RoleSeq(m) == IF m % 8 = 0 THEN << 0 >> ELSE SelectSeq(<< 1, 2, 3 >>, LAMBDA r : (m \div (IF r = 3 THEN 4 ELSE r)) % 2 = 1)
JView(t, c) ==
    CASE t \in {T_Attributes, T_Links} -> [j \in 1..Len(c) |-> Pair(Text(c[j].a), Text(c[j].b))]
      [] t = T_Blob -> [c EXCEPT !.ct = Text(@)]
      [] t \in {T_Bucket, T_Creators} -> c
      [] t = T_Metadata -> [j \in 1..4 |-> Text(Opt(c[j], << >>))]
      [] t = T_Grouping -> [size |-> Zero(8), max |-> Opt(c.max, Zero(8)), del |-> NonZero(Opt(c.del, Zero(32)))]
      [] t = T_Royalties -> c
      [] t = T_Manager -> [key |-> NonZero(c.key), roles |-> RoleSeq(c.roles)]
      [] t = T_Proxy -> [c EXCEPT !.auth = NonZero(Opt(c.auth, Zero(32)))]
      [] t = T_Properties -> [j \in 1..Len(c) |-> Pr(Text(c[j].name), c[j].ty, IF c[j].ty = 0 THEN Text(c[j].v) ELSE c[j].v)]
\* the client cannot express unknown roles, nor more bytes than fit a length
Expressible(t, c) == t = T_Manager => c.roles < 8

Header == [keys |-> [k \in {"u1", "u2", "u3", "PX", "PY", "SYS", "NIFTY"} |-> KB(k)]]
RECURSIVE ExtCases(_)
ExtCases(t) == IF t > 11 THEN << >>
               ELSE LET q == SetToSeq({c \in Contents(t) : Expressible(t, c)})
                    IN [j \in 1..Len(q) |-> [k |-> "ext", t |-> t, c |-> q[j], d |-> EncX(t, q[j])]] \o ExtCases(t + 1)
\* the properties looked up: those of the account, with every type, and one that is not there
Lookups(es) == LET ps == Cat([j \in 1..Len(es) |-> IF es[j].t = T_Properties THEN es[j].c ELSE << >>], 1)
                   nm == SetToSeq({Text(ps[j].name) : j \in 1..Len(ps)} \cup {Str(19)})
               IN [j \in 1..(3 * Len(nm)) |-> [name |-> nm[((j - 1) \div 3) + 1], ty |-> (j - 1) % 3]]
AccCase(es, tail) == [k |-> "acc", es |-> es, d |-> Lay(es) \o tail, lookups |-> Lookups(es)]
\* metadata from before there was an image: three strings
Legacy(a, b, c) == [t |-> T_Metadata, raw |-> TRUE, c |-> PStr(Str(a)) \o PStr(Str2(b)) \o PStr(Str(c))]
LegacyCase(n) ==
    LET es == << Legacy(n % 5, n \div 5, n % 3), Item(<< 1, 1 >>) >>
    IN [k |-> "legacy", es |-> es, d |-> Lay(IF n % 2 = 0 THEN es ELSE << es[1] >>) , lookups |-> << >>,
        v |-> << Str(n % 5), Str2(n \div 5), Str(n % 3), << >> >>, both |-> n % 2 = 0]
Rtails == {Zero(n) : n \in {1, 7, 8, 12, 15, 17, 24, 31}}
Cases ==
    LET rand == SelectSeq([j \in 1..(IF Deep THEN 1500 ELSE 66) |->
                    LET t == 1 + (j % 11)
                        c == RandC(t)
                    IN [k |-> "ext", t |-> t, c |-> c, d |-> << >>]], LAMBDA x : Expressible(x.t, x.c))
        q == SetToSeq(Accounts \cup {<< es, tl >> : es \in Singles, tl \in Rtails})
        acc == [j \in 1..Len(q) |-> AccCase([l \in 1..Len(q[j][1]) |-> Item(q[j][1][l])], q[j][2])]
        \* property lists, so also names with several types, in front of another extension
        pq == SetToSeq({c \in Propss : Len(c) \in 1..4})
        pacc == [j \in 1..Len(pq) |-> AccCase(<< [t |-> T_Properties, raw |-> FALSE, c |-> pq[j]], Item(<< 1 + (j % 2), 1 + (j % 9) >>) >>, << >>)]
        racc == [j \in 1..(IF Deep THEN 600 ELSE 30) |-> AccCase(TLCEval([l \in 1..Pick(1..6) |-> RandE]), << >>)]
    IN ExtCases(1) \o [j \in 1..Len(rand) |-> [rand[j] EXCEPT !.d = EncX(rand[j].t, rand[j].c)]] \o acc \o pacc \o racc \o [j \in 1..Len(Fars) |-> AccCase(Far(Fars[j][1], Fars[j][2]), << >>)]
       \o [n \in 1..60 |-> LegacyCase(n)]

SpecGood(c) == c.k = "ext" => c.d = EncX(c.t, c.c) /\ WellFormed(c.t, c.d)

Known(e) == e.t \in 1..11
AccGood(c, o) ==
    LET es == SelectSeq(c.es, Known)
        n == Len(es)
        idx(t) == {j \in 1..n : es[j].t = t}
        fst(t) == CHOOSE j \in idx(t) : \A l \in idx(t) : j <= l
        ps == IF idx(T_Properties) = {} THEN << >> ELSE JView(T_Properties, es[fst(T_Properties)].c)
        found(l) == {j \in 1..Len(ps) : ps[j].name = c.lookups[l].name /\ ps[j].ty = c.lookups[l].ty}
    IN /\ o.ok
       /\ Len(o.list) = n
       /\ \A j \in 1..n : o.list[j].t = es[j].t /\ o.list[j].v = JView(es[j].t, es[j].c)
       /\ \A t \in 1..11 : o.firsts[t] = (IF idx(t) = {} THEN << >> ELSE << JView(t, es[fst(t)].c) >>)
       /\ \A l \in 1..Len(c.lookups) :
             o.gets[l] = (IF found(l) = {} THEN << >> ELSE << ps[CHOOSE j \in found(l) : \A i \in found(l) : j <= i].v >>)
Good(c, o) ==
    CASE c.k = "ext" -> /\ o.ok /\ Len(o.outs) > 0
                        /\ \A j \in 1..Len(o.outs) : o.outs[j].ok /\ o.outs[j].d = c.d /\ o.outs[j].v = JView(c.t, c.c)
      [] c.k = "legacy" -> /\ o.ok /\ Len(o.list) = (IF c.both THEN 2 ELSE 1)
                           /\ o.list[1].t = T_Metadata /\ o.list[1].v = c.v
                           /\ c.both => o.list[2].v = JView(1, Sample[1])
      [] OTHER -> AccGood(c, o)
=============================================================================
