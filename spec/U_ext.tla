--------------------------------- MODULE U_ext ---------------------------------
(* The extension area of one asset: adding, replacing, growing, shrinking and *)
(* removing extensions in every order, with spare trailing space.             *)
EXTENDS Gen

R(n, b) == [j \in 1..n |-> (b + j) % 256]
BucketData == IF Deep THEN {R(n, 10) : n \in {0, 1, 3, 8, 9, 17}} ELSE {R(n, 10) : n \in {0, 3, 8, 17}}
BlobData == {<< 0 >>, << 1, 97 >> \o R(7, 50)} \cup (IF Deep THEN {<< 2, 97, 98 >> \o R(14, 70)} ELSE {})
AttrData == {<< 1, 97, 1, 98 >>, << 1, 97, 10 >> \o R(10, 96)}
Inits == {[A |-> Asset(0, TRUE, "u1", "u1", Name1, es)] :
            es \in {<< >>, << X(T_Bucket, R(3, 1)), X(T_Blob, << 1, 97 >> \o R(7, 50)), X(T_Attributes, << 1, 97, 1, 98 >>) >>}}
Spare(a) == a.len - EndOf(a.exts)
Bound(s) == s.A.k = "asset" => Spare(s.A) <= (IF Deep THEN 60 ELSE 30)

Up(e) == IExt("A", "u1", "u2", << "u1", "u2" >>, e)
Instrs == Cat(<<
    Seq_({Up(X(T_Bucket, d)) : d \in BucketData}),
    Seq_({Up(X(T_Blob, d)) : d \in BlobData}),
    Seq_({Up(X(T_Attributes, d)) : d \in AttrData}),
    << Up([t |-> T_Bucket, n |-> 0, hd |-> FALSE, d |-> << >>]),
       Up([t |-> T_Attributes, n |-> 0, hd |-> FALSE, d |-> << >>]),
       Up([t |-> T_Blob, n |-> 0, hd |-> FALSE, d |-> << >>]),
       Up([t |-> T_Bucket, n |-> 5, hd |-> TRUE, d |-> << 1, 2, 3 >>]),
       Up([t |-> T_Bucket, n |-> 2, hd |-> TRUE, d |-> << 1, 2, 3 >>]),
       Up([t |-> T_None, n |-> 3, hd |-> TRUE, d |-> << 1, 2, 3 >>]),
       Up([t |-> T_None, n |-> 0, hd |-> FALSE, d |-> << >>]) >>,
    Seq_({IRemove(<< "A", "u1", "-", to >>, << "u1" >>, t) : t \in {T_None, T_Bucket, T_Blob, T_Attributes, T_Links}, to \in {"u2"}}),
    Seq_({IResize(<< "A", "u1", "u2", "SYS" >>, << "u1", "u2" >>, tr, v) : tr \in {TRUE, FALSE}, v \in {0, 1, 5, 24}}),
    << IName("A", "u1", << "u1" >>, Name2), IName("A", "u1", << "u1" >>, Name1),
       IUpdate(<< "A", "u1", "-", "-", "u2", "SYS" >>, << "u1", "u2" >>, TRUE, Name2, FALSE, FALSE, TRUE, X(T_Bucket, R(9, 5))) >>
    >>)
=============================================================================
