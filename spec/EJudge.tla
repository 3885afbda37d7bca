-------------------------------- MODULE EJudge --------------------------------
(* Judges the rejections observed on the real program: errs.ndjson has one     *)
(* record [s, e] per state, e being << instruction, code >> pairs; the          *)
(* instructions are in instrs.json.                                             *)
EXTENDS Cause, Json, Tier
EInstrs == JsonDeserialize("instrs.json")
EObs == ndJsonDeserialize("errs.ndjson")
VARIABLE l
\* the quick check judges every third of many states
Stride == IF Deep \/ Len(EObs) < 3000 THEN 1 ELSE 3
Init == l \in {x \in 1..Lesser(8 * Stride, Len(EObs)) : x % Stride = Seed % Stride}
Next == /\ l + (8 * Stride) <= Len(EObs)
        /\ l' = l + (8 * Stride)
Spec == Init /\ [][Next]_l
Judged == LET o == EObs[l] IN
          \A x \in 1..Len(o.e) : LET i == EInstrs[o.e[x][1]] IN
              Direct(i) => (Cause(o.e[x][2], o.s, i) \/ PrintT(<< "BAD", l, x, o.e[x][2] >>))
=============================================================================
