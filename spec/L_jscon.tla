------------------------------- MODULE L_jscon -------------------------------
(* Constraints written and read by the JavaScript client. *)
EXTENDS TreeGen

Header == [keys |-> [k \in {"u1", "u2", "u3", "PX", "PY", "SYS", "NIFTY"} |-> KB(k)]]
Cases == LET T == Trees IN [j \in 1..Len(T) |-> [k |-> "tree", t |-> T[j], d |-> Enc(T[j])]]
SpecGood(c) == Exact(c.d, 0, Len(c.d))
\* the encoding is the program's; reading ends where the constraint ends
Good(c, o) == /\ o.ok /\ o.d = c.d
              /\ o.back = c.t /\ o.end = Len(c.d)
              /\ o.inside = c.t /\ o.iend = 3 + Len(c.d)
=============================================================================
