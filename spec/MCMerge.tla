------------------------------ MODULE MCMerge ------------------------------
(* All pairs of libraries over two top level names, with default variables,  *)
(* merged: as groups, and as directories.                                    *)
(* Checked here: the keys are the union, each is the right operand's object  *)
(* if that has it, the defaults of the right operand win, and merging twice  *)
(* or with nothing changes nothing.                                          *)
EXTENDS NrwalSession, Json, SequencesExt
CONSTANTS Vals            (* what a name can be on either side *)
VARIABLES a1, a2, b1, b2, da, db, kind, done
NoFl == [ip |-> FALSE, np |-> FALSE, iy |-> FALSE, ny |-> FALSE]
It(k, s) == [key |-> k, t |-> "e", s |-> s, items |-> <<>>]
Nu(k, v) == [key |-> k, t |-> "n", s |-> ToString(v), items |-> <<>>]
Gr(k, its) == [key |-> k, t |-> "g", s |-> "", items |-> its]
Item(k, v, side) ==
  LET w == IF side = "a" THEN "" ELSE " * 2" IN
  CASE v = "none" -> <<>>
    [] v = "eq"   -> <<It(k, "x - y" \o w)>>
    [] v = "num"  -> <<Nu(k, IF side = "a" THEN 3 ELSE 4)>>
    [] v = "grp"  -> <<Gr(k, <<It("i", "y + x" \o w)>> \o (IF side = "a" THEN <<It("only", "x")>> ELSE <<>>))>>
Items(v1, v2, side) == Item("k1", v1, side) \o Item("k2", v2, side)
FileOf(k, v, side) == IF v = "none" THEN <<>>
                      ELSE IF v = "grp" THEN <<[name |-> k, t |-> "d", items |-> <<[name |-> "f.yaml", t |-> "f",
                                                 items |-> Item("e", "grp", side)]>>]>>
                      ELSE <<[name |-> k \o ".yaml", t |-> "f", items |-> Item("e", v, side)]>>
VarF(d) == IF d = 0 THEN <<>> ELSE <<[name |-> "variables.yaml", t |-> "f", items |-> <<Nu("y", d)>>]>>
TreeOf(v1, v2, d, side) == FileOf("k1", v1, side) \o FileOf("k2", v2, side) \o VarF(d)
Q(n) == [t |-> "q", v |-> <<n, 1>>]
Defs(d) == IF d = 0 THEN NoDefs ELSE "y" :> Q(d)
Init == /\ a1 \in Vals /\ a2 \in Vals /\ b1 \in Vals /\ b2 \in Vals
        /\ da \in {0, 30} /\ db \in {0, 40} /\ kind \in {"grp", "dir"} /\ done = FALSE
        (* a directory without equations is only a directory at the top *)
A == IF kind = "grp" THEN GrpSetDefs(BuildGroup(Items(a1, a2, "a"), NoFl).o, Defs(da))
     ELSE BuildDir(TreeOf(a1, a2, da, "a"), NoFl).o
B == IF kind = "grp" THEN GrpSetDefs(BuildGroup(Items(b1, b2, "b"), NoFl).o, Defs(db))
     ELSE BuildDir(TreeOf(b1, b2, db, "b"), NoFl).o
Add(p, q) == IF kind = "grp" THEN GrpAdd(p, q) ELSE DirAdd(p, q)
M == Add(A, B)
NewOf(h, v1, v2, d, side) ==
  IF kind = "grp" THEN <<[op |-> "grp_new", h |-> h, items |-> Items(v1, v2, side), fl |-> NoFl, via |-> "dict"]>>
                       \o (IF d = 0 THEN <<>> ELSE <<[op |-> "grp_def", a |-> h, defs |-> Defs(d)]>>)
  ELSE <<[op |-> "dir_new", h |-> h, tree |-> TreeOf(v1, v2, d, side), fl |-> NoFl]>>
PathsOf(k, v) == IF kind = "grp" THEN (CASE v = "none" -> {} [] v = "grp" -> {k \o "::i", k \o "::only"} [] OTHER -> {k})
                 ELSE (CASE v = "none" -> {} [] v = "grp" -> {k \o "::f::e::i", k \o "::f::e::only"} [] OTHER -> {k \o "::e"})
Paths == PathsOf("k1", a1) \cup PathsOf("k2", a2) \cup PathsOf("k1", b1) \cup PathsOf("k2", b2)
Gets(h) == LET P == SetToSeq(Paths) IN
  [i \in 1..Len(P) |-> [op |-> "get", a |-> h, key |-> P[i], dflt |-> FALSE,
                        probes |-> <<"x" :> Q(7), ("x" :> Q(7)) @@ ("y" :> Q(2))>>]]
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED <<a1, a2, b1, b2, da, db, kind>>
        /\ PrintT("@C " \o ToJson([ev |-> NewOf("a", a1, a2, da, "a") \o NewOf("b", b1, b2, db, "b")
              \o <<[op |-> "add", h |-> "m", a |-> "a", b |-> "b", bt |-> "h"]>> \o Gets("m")
              \o <<[op |-> "parts", a |-> "m"], [op |-> "parts", a |-> "a"], [op |-> "parts", a |-> "b"]>>]))
(* variables files are objects of their directory, too *)
Union == Keys(M) = Keys(A) \cup Keys(B)
SameText(p, q) == IF p.k = "eq" THEN q.k = "eq" /\ p.ast = q.ast
                  ELSE p.k = q.k /\ Keys(p) = Keys(q)
RightWins == \A k \in Keys(M) : SameText(Obj(M, k), IF k \in Keys(B) THEN Obj(B, k) ELSE Obj(A, k))
(* what y stands for in each part of the result *)
RECURSIVE EqsOf(_)
EqsOf(o) == CASE o.k = "eq" -> {o}
              [] o.k \in {"grp", "dir"} -> UNION {EqsOf(o.items[i].o) : i \in 1..Len(o.items)}
              [] OTHER -> {}
Default == \A e \in EqsOf(M) : e.num \/
              e.defs = (IF db # 0 THEN Defs(db) ELSE IF e \in EqsOf(B) THEN (IF kind = "dir" THEN Defs(da) ELSE NoDefs)
                        ELSE Defs(da))
Idem == /\ Keys(Add(M, B)) = Keys(M)
        /\ \A k \in Keys(M) : SameText(Obj(Add(M, B), k), Obj(M, k))
        /\ \A k \in Keys(A) : SameText(Obj(Add(A, A), k), Obj(A, k))
(* all of them, once per case (in the second state, where TLC is parallel) *)
Checked == done => Default /\ Idem /\ RightWins /\ Union
=============================================================================
