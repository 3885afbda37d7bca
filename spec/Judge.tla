-------------------------------- MODULE Judge --------------------------------
(***************************************************************************)
(* Judges transitions observed on the real programs (one JSON record       *)
(* [pre, i, ok, post, dl] per line of obs.ndjson) with respect to one      *)
(* property: they must satisfy what the property forbids or demands on its *)
(* own (Safe) and agree with the specification on the behaviour the        *)
(* property speaks about (Conf).                                           *)
(***************************************************************************)
EXTENDS JudgeCfg, Props, TLC, Json

Obs == ndJsonDeserialize("obs.ndjson")

VARIABLE l
Stride == 8
Verdict(t) ==
    LET r == Step(t.pre, t.i)
        s == Safe(Prop, t)
        c == Conf(Prop, t, r)
    IN IF s /\ c THEN "ok" ELSE IF ~ s THEN "SAFE" ELSE "CONF"
Init == l \in 1..Lesser(Stride, Len(Obs))
Next == /\ l + Stride <= Len(Obs)
        /\ l' = l + Stride
Spec == Init /\ [][Next]_l
Judged == LET v == Verdict(Obs[l]) IN v = "ok" \/ PrintT(<< "BAD", v, l >>)
=============================================================================
