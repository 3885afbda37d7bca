-------------------------------- MODULE L_elf --------------------------------
(***************************************************************************)
(* IDLs embedded in a program binary and read back.  The binary holds the   *)
(* type and the compressed document somewhere, and two sections .idl.type   *)
(* and .idl.data that refer to them: the location in bytes 4 to 7, the      *)
(* length in bytes 8 to 15 (as the linker leaves a relocated slice).        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Tier, Functions, Errors

Lesser(a, b) == IF a < b THEN a ELSE b
Str(n) == [j \in 1..n |-> 97 + (j % 26)]
Pieces == {"rt", "rd", "t", "d"}
Lays == {l \in [1..4 -> Pieces] : {l[j] : j \in 1..4} = Pieces}
Both == {<< ".idl.type", ".idl.data" >>, << ".idl.data", ".idl.type" >>, << ".text", ".idl.data", ".rodata", ".idl.type", ".dynsym" >>,
         << ".idl.typ", ".idl.type", ".idl.dat", ".idl.data" >>, << ".idl.type", ".idl.data", ".idl.type2", ".idl.data.old" >>,
         << "x.idl.data", "x.idl.type", ".idl.type", ".idl.data", "idl.type", ".IDL.DATA" >>}
Lacking == {<< >>, << ".text" >>, << ".idl.type" >>, << ".idl.data" >>, << ".idl.types", ".idl.data" >>, << ".idl.type", ".idl.dat" >>}
Plain == << "rt", "rd", "t", "d" >>
Base_(k, typ, lay, secs, gap, harm) ==
    [k |-> k, typ |-> typ, lay |-> lay, sections |-> secs, gap |-> gap, low |-> 0, harm |-> harm, cut |-> 8, rawtyp |-> << >>]
With(r, f, v) == [x \in DOMAIN r \cup {f} |-> IF x = f THEN v ELSE r[x]]

\* documents: JSON values
Ix(n) == [name |-> "ix" \o ToString(n), discriminant |-> [type |-> "u8", value |-> n],
          accounts |-> [j \in 1..(n % 7) |-> [name |-> "a" \o ToString(j), isMut |-> j % 2 = 0, isSigner |-> j % 3 = 0, docs |-> << "the account", "\"quoted\" \\ text" >>]],
          args |-> << >>]
Docs == << [name |-> "p"], [instructions |-> << >>, version |-> "1.0.0"], [instructions |-> [j \in 1..3 |-> Ix(j)], name |-> ""],
           [instructions |-> [j \in 1..60 |-> Ix(j)], name |-> "long", errors |-> [j \in 1..200 |-> [code |-> j * 1000003, msg |-> "error " \o ToString(j)]]],
           [a |-> [b |-> [c |-> [d |-> << << << 1 >>, << >> >>, << TRUE, FALSE >> >>]]]] >>
\* the texts of documents that are awkward for a reader: numbers beyond 32 bits, escapes, other scalars, white space
Ascii == << "{\"n\": 18446744073709551615, \"m\": -9223372036854775808}", "{ }", "[]", "null", "\"x\"", "  {\"a\" :\n [1 , 2.5, 1e3]}  ", "{\"u\": \"\\u00e9\\ud83d\\ude00\\n\"}",
            "{\"docs\" : [\"  a  table   of \", \" \", \"\\t\\r\\n\", \"a:b, {c}\"]}", "{\"a\": {\"a\": {\"a\": null, \"b\": true}}, \"b\": false}" >>
Codes == [ch \in {" ", "{", "}", "\"", ":", ",", "[", "]", "-", ".", "\\", "\n"} |->
            CASE ch = " " -> 32 [] ch = "{" -> 123 [] ch = "}" -> 125 [] ch = "\"" -> 34 [] ch = ":" -> 58 [] ch = "," -> 44 [] ch = "[" -> 91 [] ch = "]" -> 93
              [] ch = "-" -> 45 [] ch = "." -> 46 [] ch = "\\" -> 92 [] OTHER -> 10]
Digits_ == "0123456789"
Alpha == "abcdefghijklmnopqrstuvwxyz"
Code(ch) == IF ch \in DOMAIN Codes THEN Codes[ch]
            ELSE LET d == {j \in 1..10 : SubSeq(Digits_, j, j) = ch} IN
                 IF d # {} THEN 47 + (CHOOSE j \in d : TRUE) ELSE 96 + (CHOOSE j \in 1..26 : SubSeq(Alpha, j, j) = ch)
BytesOf(s) == [j \in 1..Len(s) |-> Code(SubSeq(s, j, j))]
Texts == [j \in 1..Len(Ascii) |-> BytesOf(Ascii[j])]
         \* letters outside ASCII, and long runs
         \o << << 34, 195, 169, 240, 159, 152, 128, 34 >>, << 34 >> \o Str(5000) \o << 34 >>, << 34 >> \o [j \in 1..70000 |-> 97 + (((j % 1000) * (j % 997)) % 23)] \o << 34 >> >>
Broken == << << >>, << 123 >>, << 123, 125, 125 >>, << 34, 97 >>, Str(12) >>
Files == << "asset-program.codama.json", "asset_program.json", "bridge_program.json", "proxy_program.json", "nifty_asset_interface.json" >>
Types_ == << "anchor", "codama" >>
Harms == {"farsection", "hugesection", "fardata", "hugedata", "fartype", "hugetype", "longdata", "cut"}
BadTypes == {<< >>, << 97 >>, Str(6), << 195, 40 >>, << 255, 254 >>, << 99, 111, 100, 97, 109, 97, 32 >>}

Over(S, F(_)) == LET q == SetToSeq(S) IN [j \in 1..Len(q) |-> F(q[j])]
Doc(n, t, lay, secs, gap, harm) == With(Base_("doc", Types_[t], lay, secs, gap, harm), "doc", Docs[n])
Cases ==
    Over((1..Len(Docs)) \X (1..2) \X Both \X {0, 1, 5}, LAMBDA x : Doc(x[1], x[2], Plain, x[3], x[4], "none"))
    \o Over(Lays \X (1..2) \X {0, 3} \X {0, 123456789}, LAMBDA x : [Doc(3, x[2], x[1], << ".idl.data", ".text", ".idl.type" >>, x[3], "none") EXCEPT !.low = x[4]])
    \o Over((1..Len(Texts)) \X (1..2), LAMBDA x : With(Base_("text", Types_[x[2]], Plain, << ".idl.type", ".idl.data" >>, 2, "none"), "text", Texts[x[1]]))
    \o Over((1..Len(Files)) \X (1..2), LAMBDA x : With(Base_("file", Types_[x[2]], Plain, << ".idl.type", ".idl.data" >>, 2, "none"), "file", Files[x[1]]))
    \o << With(Base_("program", "codama", Plain, << ".idl.type", ".idl.data" >>, 2, "none"), "file", Files[1]) >>
    \* no IDL, or one that cannot be read
    \o Over((1..2) \X Lacking, LAMBDA x : Doc(x[1], 1, Plain, x[2], 4, "none"))
    \o Over((1..2) \X Both \X Harms, LAMBDA x : Doc(x[1], 2, Plain, x[2], 4, x[3]))
    \o Over((1..Len(Broken)) \X Both, LAMBDA x : With(Base_("text", "codama", Plain, x[2], 2, "doc"), "text", Broken[x[1]]))
    \o Over(BadTypes \X Both, LAMBDA x : [Doc(2, 1, Plain, x[2], 2, "type") EXCEPT !.typ = "raw", !.rawtyp = x[1]])
    \o Over((0..7) \X (1..4), LAMBDA x : [Doc(x[2], 1, Plain, << ".idl.type", ".idl.data" >>, 0, "zip") EXCEPT !.cut = x[1]])
    \o SelectSeq(ErrCases, LAMBDA c : c.prog # "proxy")
Header == [family |-> "elf"]

-----------------------------------------------------------------------------
Has(c, s) == \E j \in 1..Len(c.sections) : c.sections[j] = s
Whole(c) == c.harm = "none" /\ Has(c, ".idl.type") /\ Has(c, ".idl.data")
SpecGood(c) == c.k # "err" => Len(c.lay) = 4
\* the document of a section that runs past its end is still the whole document
Good(c, o) == IF c.k = "err" THEN ErrGood(c, o, IF c.prog = "asset" THEN {"program", "rust"} ELSE {"rust"})
              ELSE IF Whole(c) THEN o.r = "idl" /\ o.t = c.typ /\ o.doc = o.orig /\ o.doc # ""
              ELSE IF c.harm = "longdata" THEN o.r \in {"error", "idl"} /\ (o.r = "idl" => o.doc = o.orig)
              ELSE o.r = "error"
=============================================================================
