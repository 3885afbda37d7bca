--------------------------------- MODULE U_core ---------------------------------
(* One asset: owner, delegate, manager, lock state, burn. *)
EXTENDS Gen

Mgr(r) == << X(T_Manager, ManagerData("u3", r)) >>
Inits == {[A |-> Asset(s, TRUE, "u1", "u4", Name1, << >>)] : s \in {0, 2}}
     \cup {[A |-> Asset(1, TRUE, "u1", "u4", Name1, Mgr(r))] : r \in {0, 1, 2, 4, 7}}
Bound(s) == TRUE

Roles == << << 1 >>, << 2 >>, << 3 >>, << 1, 3 >>, << >>, << 0 >>, << 2, 2, 1 >> >>
P4 == {"u1", "u2", "u3", "u4"}
Instrs == Cat(<<
    Seq_({I0("Transfer", << "A", u, to, "-" >>, sg) : u \in P4, to \in {"u1", "u2"}, sg \in {<< "u1" >>, << "u2" >>, << "u3" >>, << "u4" >>, << >>}}),
    Seq_({IDel("Approve", << "A", u, d >>, << u >>, FALSE, Roles[j]) : u \in {"u1", "u2"}, d \in {"u2", "u3"}, j \in 1..7}),
    Seq_({IDel("Approve", << "A", u, d >>, sg, TRUE, << >>) : u \in {"u1", "u2", "u4"}, d \in {"u2", "u3", "SYS"}, sg \in {<< "u1" >>, << "u2" >>, << "u4" >>, << >>}}),
    Seq_({IDel("Approve", << "A", u, "SYS" >>, << u >>, FALSE, Roles[j]) : u \in {"u1"}, j \in {1, 5}}),
    Seq_({IDel("Revoke", << "A", u >>, << u >>, FALSE, Roles[j]) : u \in {"u1", "u2", "u3"}, j \in 1..7}),
    Seq_({IDel("Revoke", << "A", u >>, sg, TRUE, << >>) : u \in P4, sg \in {<< "u1" >>, << "u2" >>, << "u3" >>, << "u4" >>, << >>}}),
    Seq_({I0(op, << "A", u >>, sg) : op \in {"Lock", "Unlock"}, u \in P4 \cup {"SYS"}, sg \in {<< "u1" >>, << "u2" >>, << "u3" >>, << "u4" >>, << >>}}),
    Seq_({I0("Burn", << "A", u, to, "-" >>, sg) : u \in P4, to \in {"-", "u2", "A"}, sg \in {<< "u1" >>, << "u2" >>, << "u3" >>, << "u4" >>, << >>}}),
    Seq_({I0("Handover", << "A", "u4", "u1" >>, sg) : sg \in {<< "u4", "u1" >>, << "u4" >>, << "u1" >>}}),
    << I0("Handover", << "A", "u1", "u4" >>, << "u4", "u1" >>),
       IName("A", "u4", << "u4" >>, Name2), IName("A", "u1", << "u1" >>, Name2), IName("A", "u4", << >>, Name2) >>
    >>)
=============================================================================
