---------------------------------- MODULE Gen ----------------------------------
(* Constructors for instructions and states, used by the bounded universes. *)
EXTENDS Nifty, Tier

Seq_(S) == SetToSeq(S)
RECURSIVE CatFrom(_, _, _)
CatFrom(ss, i, j) == IF i > j THEN << >> ELSE IF i = j THEN ss[i]
                     ELSE CatFrom(ss, i, (i + j) \div 2) \o CatFrom(ss, (i + j) \div 2 + 1, j)
Cat(ss) == CatFrom(ss, 1, Len(ss))

I0(op, acc, sg) == [op |-> op, acc |-> acc, sg |-> sg, cpi |-> FALSE]
NoExt == [t |-> 0, n |-> 0, hd |-> FALSE, d |-> << >>]
X(t, d) == [t |-> t, n |-> Len(d), hd |-> TRUE, d |-> d]

ICreate(acc, sg, name, std, mut, exts) ==
    [op |-> "Create", acc |-> acc, sg |-> sg, cpi |-> FALSE, name |-> name, std |-> std,
     mut |-> mut, hx |-> exts # << >>, exts |-> exts]
IDel(op, acc, sg, all, roles) ==
    [op |-> op, acc |-> acc, sg |-> sg, cpi |-> FALSE, all |-> all, roles |-> roles]
IUpdate(acc, sg, hn, name, hm, mut, he, e) ==
    [op |-> "Update", acc |-> acc, sg |-> sg, cpi |-> FALSE, hn |-> hn, name |-> name, hm |-> hm,
     mut |-> mut, he |-> he, e |-> e]
IName(k, u, sg, name) == IUpdate(<< k, u, "-", "-", "-", "-" >>, sg, TRUE, name, FALSE, FALSE, FALSE, NoExt)
IMut(k, u, sg, m) == IUpdate(<< k, u, "-", "-", "-", "-" >>, sg, FALSE, << >>, TRUE, m, FALSE, NoExt)
IExt(k, u, p, sg, e) == IUpdate(<< k, u, "-", "-", p, "SYS" >>, sg, FALSE, << >>, FALSE, FALSE, TRUE, e)
IBuf(k, u, b, p, sg) == IUpdate(<< k, u, b, "-", p, "SYS" >>, sg, FALSE, << >>, FALSE, FALSE, FALSE, NoExt)
IAllocate(acc, sg, e) == [op |-> "Allocate", acc |-> acc, sg |-> sg, cpi |-> FALSE, e |-> e]
IWrite(acc, sg, ow, d) == [op |-> "Write", acc |-> acc, sg |-> sg, cpi |-> FALSE, ow |-> ow, d |-> d]
IRemove(acc, sg, t) == [op |-> "Remove", acc |-> acc, sg |-> sg, cpi |-> FALSE, t |-> t]
IResize(acc, sg, trim, v) == [op |-> "Resize", acc |-> acc, sg |-> sg, cpi |-> FALSE, trim |-> trim, v |-> v]
IFund(k, p, v) == [op |-> "Fund", acc |-> << k, p >>, sg |-> << p >>, cpi |-> FALSE, v |-> v]
IBad(acc, sg, d) == [op |-> "Bad", acc |-> acc, sg |-> sg, cpi |-> FALSE, d |-> d]
ViaCpi(i) == [i EXCEPT !.cpi = TRUE]

\* an initialised asset
Asset(std, mut, owner, auth, name, es) ==
    [k |-> "asset", st |-> 0, std |-> std, mut |-> mut, owner |-> owner, group |-> "-",
     auth |-> auth, da |-> "-", dr |-> 0, name |-> name,
     exts |-> [j \in 1..Len(es) |-> [t |-> es[j].t, n |-> es[j].n, d |-> es[j].d]],
     len |-> SpaceOf(es), xl |-> 0]
Name1 == << 65 >>
Name2 == << 66, 195, 169 >>
None1(S) == [s \in S |-> NONE]
=============================================================================
