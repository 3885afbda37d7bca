------------------------------- MODULE LJudge -------------------------------
(***************************************************************************)
(* Judges what the library code did with every case: obs.ndjson has one    *)
(* line per line of cases.ndjson.                                          *)
(***************************************************************************)
EXTENDS Family, Json
C == ndJsonDeserialize("cases.ndjson")
Obs == ndJsonDeserialize("obs.ndjson")
VARIABLE l
Stride == 64
Init == l \in 1..Lesser(Stride, Len(C))
Next == /\ l + Stride <= Len(C)
        /\ l' = l + Stride
Spec == Init /\ [][Next]_l
\* "MODEL": the specification itself does not have the property
Verdict(c, o) == IF ~ SpecGood(c) THEN "MODEL" ELSE IF Good(c, o) THEN "ok" ELSE "LIB"
Judged == LET v == Verdict(C[l], Obs[l]) IN v = "ok" \/ PrintT(<< "BAD", v, l >>)
ASSUME Len(C) = Len(Obs)
=============================================================================
