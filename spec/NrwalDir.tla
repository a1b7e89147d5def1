----------------------------- MODULE NrwalDir -----------------------------
(* Equation directories: a tree of directories and yaml/json files.         *)
(* [k |-> "dir", items |-> seq of [key, o], fl, defs]                       *)
EXTENDS NrwalGroup

Dir(items, fl, defs) == [k |-> "dir", items |-> items, fl |-> fl, defs |-> defs]

IsData(name)  == EndsWith(name, ".yaml") \/ EndsWith(name, ".yml") \/ EndsWith(name, ".json")
Stem(name)    == IF EndsWith(name, ".yml") THEN SubSeq(name, 1, Len(name) - 4)
                 ELSE SubSeq(name, 1, Len(name) - 5)
Ignored(name) == StartsWith(name, ".") \/ StartsWith(name, "__")

OwnVars(d) == IF "variables" \in Keys(d) /\ Obj(d, "variables").k = "vars"
              THEN VarDict(Obj(d, "variables")) ELSE NoDefs

(* Default variables flow down the tree; the variables of a directory win   *)
(* over those of the directories above it and reach nothing outside of it.  *)
RECURSIVE DirSetDefs(_, _, _)
DirSetDefs(d, outer, force) ==
  LET here == TLCEval(IF force THEN outer ELSE OwnVars(d) @@ outer)
  IN  [d EXCEPT
       !.defs = TLCEval(here @@ @),
       !.items = TLCEval([i \in 1..Len(@) |-> [@[i] EXCEPT !.o =
           IF @.k = "dir" THEN DirSetDefs(@, here, force)
           ELSE IF @.k = "grp" THEN GrpSetDefs(@, here) ELSE @]])]

(* tree entry: [name, t, items]: t = "d" directory, "f" file with readable  *)
(* content, "x" file that cannot be parsed                                  *)
RECURSIVE LoadTree(_, _)
LoadTree(tree, fl) ==
  LET n == Len(tree)
      use == SelectSeq([i \in 1..n |-> i], LAMBDA i :
               /\ ~Ignored(tree[i].name)
               /\ (tree[i].t = "d" \/ IsData(tree[i].name)))
      r(i) == IF tree[i].t = "d" THEN LoadTree(tree[i].items, fl)
              ELSE IF tree[i].t = "x" THEN Fail({"RuntimeError"})
              ELSE LET b == IF Stem(tree[i].name) = "variables" THEN BuildVars(tree[i].items)
                            ELSE BuildGroup(tree[i].items, fl)
                   IN  IF b.ok THEN b ELSE Fail({"RuntimeError"})
      res == TLCEval([j \in 1..Len(use) |-> r(use[j])])
      ok  == \A j \in 1..Len(use) : res[j].ok
      (* directories without any equations are dropped *)
      keep == SelectSeq([j \in 1..Len(use) |-> j], LAMBDA j :
                ~(res[j].o.k = "dir" /\ Len(res[j].o.items) = 0))
      name(j) == IF tree[use[j]].t = "d" THEN tree[use[j]].name ELSE Stem(tree[use[j]].name)
  IN  IF ~ok THEN Fail({"RuntimeError"})
      ELSE OK(Dir([m \in 1..Len(keep) |-> [key |-> name(keep[m]), o |-> res[keep[m]].o]], fl, NoDefs))

BuildDir(tree, fl) == LET r == LoadTree(tree, fl)
                      IN  IF r.ok THEN OK(DirSetDefs(r.o, NoDefs, FALSE)) ELSE r

(* merge: union of the top level, right operand wins *)
DirAdd(a, b) ==
  LET left == [i \in 1..Len(a.items) |->
                 IF a.items[i].key \in Keys(b) THEN [key |-> a.items[i].key, o |-> Obj(b, a.items[i].key)]
                 ELSE a.items[i]]
      right == SelectSeq(b.items, LAMBDA x : x.key \notin Keys(a))
  IN  DirSetDefs([a EXCEPT !.items = left \o right], b.defs, FALSE)

(* ------------------------------------------------------- retrieval ------ *)
DropExt(s) == IF IsData(s) THEN Stem(s) ELSE s

RECURSIVE DirPath(_, _)
DirPath(o, path) ==
  LET key == IF o.k \in {"dir", "grp", "vars"} /\ path[1] \in Keys(o) THEN path[1] ELSE DropExt(path[1])
      S == IF o.k = "dir" THEN (IF key \in Keys(o) THEN {Obj(o, key)} ELSE {})
           ELSE IF o.k = "grp" THEN (IF IsNumText(key) /\ key \notin Keys(o) THEN {}
                                     ELSE LookupOne(o, key, o.fl, TRUE))
           ELSE IF o.k = "vars" THEN (IF key \in Keys(o) THEN {Obj(o, key)} ELSE {})
           ELSE {}
  IN  IF Len(path) = 1 THEN S ELSE UNION {DirPath(x, Tail(path)) : x \in S}

DirName(d, key) ==
  IF key \notin Keys(d) /\ IsNumText(key) THEN {EqText(key, NoDefs)}
  ELSE DirPath(d, Split(key, "::"))

GetName(o, key) == CASE o.k = "dir" -> DirName(o, key)
                     [] o.k = "grp" -> GrpName(o, key)
                     [] o.k = "vars" -> IF key \in Keys(o) THEN {Obj(o, key)}
                                       ELSE IF IsNumText(key) THEN {EqText(key, NoDefs)} ELSE {}
                     [] OTHER -> {}

(* keys with embedded math: every name stands for the equation it retrieves *)
AsEq(S) == {IF x.k = "q" THEN Eq(Num(x.q), NoDefs, TRUE) ELSE x : x \in S}
RECURSIVE GetMath(_, _)
GetMath(o, a) ==
  CASE a.n = "num" -> {Eq(a, NoDefs, TRUE)}
    [] a.n = "var" -> AsEq(GetName(o, a.s))
    [] a.n = "bin" -> {EqOp(a.op, x, y) : x \in GetMath(o, a.l), y \in GetMath(o, a.r)}
    [] OTHER -> {}
Get(o, key) == IF HasOp(key) THEN GetMath(o, Parse(key)) ELSE GetName(o, key)
=============================================================================
