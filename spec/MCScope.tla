------------------------------- MODULE MCScope -------------------------------
(* All placements of variables files for two names in a directory tree       *)
(* root / a / b, root / c.  Checked here: the default of a name in a file is *)
(* the one of the closest variables file on the way up, and nothing else;    *)
(* constants of a config win over all of them.                               *)
EXTENDS NrwalSession, Json, SequencesExt
CONSTANTS Names2        (* the names that variables files may define *)
VARIABLES vx, done
Dirs == {"r", "a", "b", "c"}
Up == [r |-> <<"r">>, a |-> <<"a", "r">>, b |-> <<"b", "a", "r">>, c |-> <<"c", "r">>]
Code == [r |-> 1, a |-> 2, b |-> 3, c |-> 4]
ValOf(d, n) == IF n = "x" THEN Code[d] * 10 ELSE Code[d] * 10 + 5
NoFl == [ip |-> FALSE, np |-> FALSE, iy |-> FALSE, ny |-> FALSE]

It(k, s) == [key |-> k, t |-> "e", s |-> s, items |-> <<>>]
Nu(k, v) == [key |-> k, t |-> "n", s |-> ToString(v), items |-> <<>>]
File(nm, its) == [name |-> nm, t |-> "f", items |-> its]
Sub(nm, its) == [name |-> nm, t |-> "d", items |-> its]
EqFile == File("f.yaml", <<It("eq", "x - y * z"), [key |-> "g", t |-> "g", s |-> "", items |-> <<It("in", "x * 3")>>]>>)
VarFile(d) == LET ns == SetToSeq(vx[d]) IN
              IF ns = <<>> THEN <<>> ELSE <<File("variables.yaml", [i \in 1..Len(ns) |-> Nu(ns[i], ValOf(d, ns[i]))])>>
Tree == <<EqFile>> \o VarFile("r")
        \o <<Sub("a", VarFile("a") \o <<EqFile, Sub("b", <<EqFile>> \o VarFile("b"))>>), Sub("c", <<EqFile>> \o VarFile("c"))>>

Init == vx \in [Dirs -> SUBSET Names2] /\ done = FALSE
Next == /\ ~done
        /\ done' = TRUE
        /\ vx' = vx
        /\ PrintT("@C " \o ToJson([tree |-> Tree]))

Bld == BuildDir(Tree, NoFl)
Path == [r |-> "f::", a |-> "a::f::", b |-> "a::b::f::", c |-> "c::f::"]
EqAt(d, k) == Pick(Get(Bld.o, Path[d] \o k))
(* the closest directory on the way up that defines n, 0 if none *)
Closest(d, n) == LET S == {i \in 1..Len(Up[d]) : n \in vx[Up[d][i]]} IN
                 IF S = {} THEN "" ELSE Up[d][CHOOSE i \in S : \A j \in S : i <= j]
NearestWins == Bld.ok /\ \A d \in Dirs : \A k \in {"eq", "g::in"} :
   LET e == EqAt(d, k) IN
   /\ DOMAIN e.defs = {n \in Names2 : Closest(d, n) # ""}
   /\ \A n \in DOMAIN e.defs : e.defs[n] = VQ(<<ValOf(Closest(d, n), n), 1>>)
ConstWins ==
  LET ents == <<[key |-> "x", t |-> "n", s |-> "7"]>>
              \o [i \in 1..4 |-> [key |-> <<"kr", "ka", "kb", "kc">>[i], t |-> "s",
                                  s |-> Path[<<"r", "a", "b", "c">>[i]] \o "eq"]]
      c == BuildConfig(ents, Bld.o)
  IN  c.ok /\ \A k \in {"kr", "ka", "kb", "kc"} : Obj(c.o, k).defs["x"] = VQ(<<7, 1>>)
(* all of them, once per case (in the second state, where TLC is parallel) *)
Checked == done => ConstWins /\ NearestWins
=============================================================================
