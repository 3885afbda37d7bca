-------------------------------- MODULE Proxy --------------------------------
(***************************************************************************)
(* The proxy program: creates proxied assets at addresses derived from a   *)
(* stub key, intercepts transfers and updates of them, and forwards every  *)
(* other instruction of the asset interface with the asset's signature     *)
(* added.  Composed from the transition function of the asset program.     *)
(* The image blob of a proxied asset is represented by << 0 >>.            *)
(***************************************************************************)
EXTENDS Nifty

Img == [t |-> T_Blob, n |-> ImgLen, d |-> << 0 >>]
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN << 48 + n >> ELSE Append(Digits(n \div 10), 48 + (n % 10))
RECURSIVE Spaces(_)
Spaces(n) == IF n = 0 THEN << >> ELSE Append(Spaces(n - 1), 32)
Twelve(n) == Spaces(12 - Len(Digits(n))) \o Digits(n)
\* the attribute "transfers"
CounterData(n) == << 9, 116, 114, 97, 110, 115, 102, 101, 114, 115, 12 >> \o Twelve(n)
RECURSIVE Number(_)
Number(s) == IF s = << >> THEN 0 ELSE Number(Front(s)) * 10 + (Last(s) - 48)
Counter(a) == Number(SelectSeq(SubSeq(ExtData(a, T_Attributes), 12, 23), LAMBDA c : c # 32))
\* the property "last_transferred" at time 0
StampData == << 16, 108, 97, 115, 116, 95, 116, 114, 97, 110, 115, 102, 101, 114, 114, 101, 100, 1, 0, 0, 0, 0, 0, 0, 0, 0 >>

InX(t, d) == [t |-> t, n |-> Len(d), hd |-> TRUE, d |-> d]
With(i, sg) == [i EXCEPT !.sg = @ \o sg, !.cpi = TRUE]
\* the address the proxy program signs for, given the seeds in this data
DerivedFrom(d) ==
    LET M == {z \in DOMAIN ProxyOf : SubSeq(ProxyData(z, "SYS"), 33, 65) = SubSeq(d, 33, 65)}
    IN IF M = {} THEN "?" ELSE CHOOSE z \in M : TRUE
HasProxyData(st, k) == IsSlot(st, k) /\ st[k].k # "none" /\ HasExt(st[k], T_Proxy)
NoCh(i, r) == r

UpdateOf(i, k, hn, name, hm, mut, he, e) ==
    With([op |-> "Update", acc |-> << k, k, "-", "-", "-", "-" >>, sg |-> i.sg, cpi |-> TRUE, hn |-> hn, name |-> name,
          hm |-> hm, mut |-> mut, he |-> he, e |-> e], << k >>)

PCreate(st, i) ==
    LET k == i.acc[1]
        stub == i.acc[2]
        blob == [t |-> T_Blob, n |-> ImgLen, hd |-> TRUE, d |-> [j \in 1..ImgLen |-> 0]]
        r == Apply(st, With([op |-> "Create", acc |-> << k, k, i.acc[3], "-", "-", i.acc[5], i.acc[6] >>, sg |-> i.sg, cpi |-> TRUE,
                 name |-> i.name, std |-> 3, mut |-> TRUE, hx |-> TRUE,
                 exts |-> << InX(T_Attributes, CounterData(0)), blob, InX(T_Proxy, ProxyData(k, i.acc[4])), InX(T_Properties, StampData) >>], << k >>))
    IN IF ~ Sg(i, i.acc[4]) \/ ~ Sg(i, stub) THEN No("sig")
       ELSE IF k \notin DOMAIN ProxyOf \/ ProxyOf[k].seed # stub THEN No("derivation")
       ELSE IF i.acc[7] # "NIFTY" THEN No("program")
       ELSE IF ~ r.ok THEN r
       ELSE [r EXCEPT !.st[k].exts[4] = Img]

\* what the proxy does when the named asset carries proxy data
PTransfer(st, i) ==
    LET k == i.acc[1]
        d == ExtData(st[k], T_Proxy)
        c == Counter(st[k])
        r1 == Apply(st, UpdateOf(i, k, FALSE, << >>, FALSE, FALSE, TRUE, InX(T_Attributes, CounterData(c + 1))))
        r2 == Apply(r1.st, UpdateOf(i, k, FALSE, << >>, FALSE, FALSE, TRUE, InX(T_Properties, StampData)))
        r3 == Apply(r2.st, With([op |-> "Transfer", acc |-> << k, i.acc[2], i.acc[3], "-" >>, sg |-> i.sg, cpi |-> TRUE], << k >>))
    IN IF ~ Sg(i, i.acc[2]) THEN No("sig")
       ELSE IF ~ HasProxyData(st, k) THEN No("proxydata")
       ELSE IF i.acc[5] # "NIFTY" THEN No("program")
       ELSE IF ~ IsAsset(st, k) \/ ~ HasExt(st[k], T_Attributes) THEN No("proxydata")
       ELSE IF ~ Sg(i, k) /\ DerivedFrom(d) # k THEN No("seeds")
       ELSE IF ~ r1.ok THEN r1 ELSE IF ~ r2.ok THEN r2 ELSE r3

PUpdate(st, i) ==
    LET k == i.acc[1]
        d == ExtData(st[k], T_Proxy)
    IN IF ~ HasProxyData(st, k) THEN No("proxydata")
       ELSE IF i.acc[7] # "NIFTY" THEN No("program")
       ELSE IF ~ Sg(i, i.acc[2]) THEN No("sig")
       ELSE IF ProxyAuth(d) = "SYS" \/ ProxyAuth(d) # i.acc[2] THEN No("auth")
       ELSE IF ~ Sg(i, k) /\ DerivedFrom(d) # k THEN No("seeds")
       ELSE Apply(st, UpdateOf(i, k, i.hn, i.name, i.hm, i.mut, FALSE, [t |-> 0, n |-> 0, hd |-> FALSE, d |-> << >>]))

PForward(st, i) ==
    LET k == i.acc[1]
        d == ExtData(st[k], T_Proxy)
        n == Len(i.acc)
    IN IF ~ HasProxyData(st, k) THEN No("proxydata")
       ELSE IF i.acc[n] # "NIFTY" THEN No("program")
       ELSE IF ~ Sg(i, k) /\ \E j \in 2..n : i.acc[j] = k THEN No("alias")
       ELSE IF ~ Sg(i, k) /\ DerivedFrom(d) # k THEN No("seeds")
       ELSE Apply(st, With(i, << k >>))

ProxyStep(st, i) ==
    LET r == CASE i.op = "PCreate" -> PCreate(st, i)
               [] i.op = "Transfer" -> PTransfer(st, i)
               [] i.op = "Update" -> PUpdate(st, i)
               [] i.op = "Bad" -> No("decode")
               [] OTHER -> PForward(st, i)
    IN TLCEval(IF r.ok THEN r ELSE [ok |-> FALSE, st |-> st, dl |-> Zero, why |-> r.why])

=============================================================================
