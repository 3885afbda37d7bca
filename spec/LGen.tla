-------------------------------- MODULE LGen --------------------------------
(* Writes the cases of a family for the harness. *)
EXTENDS Family, Json
VARIABLE x
Spec == x = 0 /\ [][FALSE]_x
Written == LET cs == Cases IN
           /\ JsonSerialize("header.json", Header)
           /\ ndJsonSerialize("cases.ndjson", cs)
           /\ PrintT(<< "cases", Len(cs) >>)
ASSUME Written
=============================================================================
