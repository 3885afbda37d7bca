------------------------------- MODULE Explore -------------------------------
(***************************************************************************)
(* Exhaustive exploration of a bounded universe (module Universe, one of   *)
(* the U_* modules): every instruction of the list Instrs in every state   *)
(* reachable from Inits within Bound.                                      *)
(*  Every property is     *)
(* evaluated on every transition, and every state is printed together with *)
(* the instructions it accepts and their effects, for the replay.          *)
(***************************************************************************)
EXTENDS Universe, Cause, JudgeCfg, TLC, Json

VARIABLE st

Changed(r) == [s \in {x \in DOMAIN st : r.st[x] # st[x]} |-> r.st[s]]

\* outcomes of all instructions in this state
N == Len(Instrs)
Outcomes == TLCEval([j \in 1..N |-> Step(st, Instrs[j])])
Tr(j, r) == [pre |-> st, i |-> Instrs[j], ok |-> r.ok, post |-> r.st, dl |-> r.dl]

Init == st \in Inits
\* the successors of a state; checks and reports the state on the way
Successors ==
    LET o == Outcomes
        K == TLCEval(SelectSeq([j \in 1..N |-> j], LAMBDA j : o[j].ok))
        safe(x) == LET t == Tr(K[x], o[K[x]]) IN
                   \A p \in Focus : Safe(p, t) \/ Assert(FALSE, << "UNSAFE", p, t >>)
        explained(j) == (~ o[j].ok /\ Direct(Instrs[j])) => (Explained(st, Instrs[j], o[j].why) \/ Assert(FALSE, << "UNEXPLAINED", o[j].why, Instrs[j], st >>))
    IN IF /\ \A x \in 1..Len(K) : safe(x)
          /\ "P28" \in Focus => \A j \in 1..N : explained(j)
          /\ PrintT(ToJson([s |-> st, ok |-> [x \in 1..Len(K) |->
                      [i |-> K[x], c |-> Changed(o[K[x]]), dl |-> o[K[x]].dl]]]))
       THEN {o[K[x]].st : x \in 1..Len(K)}
       ELSE {}
Next == \E s \in Successors : Bound(s) /\ st' = s
Spec == Init /\ [][Next]_st

StateOK == /\ GroupCounts(st)
           /\ \A s \in DOMAIN st : A_(st, s) => AssetValid(st[s]) /\ StdConsistent(s, st[s])
           /\ \A s \in DOMAIN st : st[s].xl >= 0

ASSUME PrintT(ToJson([instrs |-> Instrs]))
=============================================================================
