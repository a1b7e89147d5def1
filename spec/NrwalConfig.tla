---------------------------- MODULE NrwalConfig ----------------------------
(* NrwalConfig: an ordered set of named expressions over an equation        *)
(* directory, the inputs, and the outputs of an evaluation.                 *)
EXTENDS NrwalDir

(* ------------------------------------------------ config pointers ------- *)
(* files: function from path to entries; an entry is [key, t, s] with t =   *)
(* "s" text, "n" number (s its text), "l" list, "o" anything else           *)
Markers == {".json", ".yaml", ".yml"}
IsPointer(e) == e.t = "s" /\ \E m \in Markers : Has(e.s, m)
HasDupMath(s) == \E i \in 1..Len(s) : Ch(s, i) \in {"*", "+", "(", ")"}

RECURSIVE NormParts(_, _)
NormParts(p, acc) ==
  IF p = <<>> THEN acc
  ELSE IF p[1] \in {"", "."} THEN NormParts(Tail(p), acc)
  ELSE IF p[1] = ".." THEN NormParts(Tail(p), IF acc = <<>> THEN <<>> ELSE SubSeq(acc, 1, Len(acc) - 1))
  ELSE NormParts(Tail(p), Append(acc, p[1]))
Norm(path) == JoinWith(NormParts(Split(path, "/"), <<>>), "/")
DirOf(path) == LET p == Split(path, "/") IN JoinWith(SubSeq(p, 1, Len(p) - 1), "/")

EntKeys(ents) == {ents[i].key : i \in 1..Len(ents)}
EntAt(ents, key) == ents[CHOOSE i \in 1..Len(ents) : ents[i].key = key]

Reserved == {"equation_directory", "interp_extrap_power", "use_nearest_power",
             "interp_extrap_year", "use_nearest_year"}

RECURSIVE Deref(_, _, _, _)
(* entries of the config in file `path` ("" if not from a file) after       *)
(* following all pointers; fuel bounds the chain of files                   *)
Deref(files, path, ents, fuel) ==
  LET n == Len(ents)
      one(i) ==
        LET e == ents[i] IN
        IF e.key = "equation_directory" \/ ~IsPointer(e) THEN OK(e)
        ELSE IF path = "" \/ CountSub(e.s, "::") # 1 \/ HasDupMath(e.s) \/ fuel = 0 THEN Fail({"any"})
        ELSE LET parts == Split(e.s, "::")
                 (* "/" is the directory of all files of the scenario *)
                 fp == Norm(IF StartsWith(parts[1], "/") THEN parts[1] ELSE DirOf(path) \o "/" \o parts[1])
             IN  IF fp \notin DOMAIN files THEN Fail({"any"})
                 ELSE LET sub == Deref(files, fp, files[fp], fuel - 1)
                      IN  IF ~sub.ok THEN sub
                          ELSE IF parts[2] \notin EntKeys(sub.o) THEN Fail({"any"})
                          ELSE OK([EntAt(sub.o, parts[2]) EXCEPT !.key = e.key])
      res == [i \in 1..n |-> one(i)]
  IN  IF \E i \in 1..n : ~res[i].ok THEN Fail({"any"})
      ELSE OK([i \in 1..n |-> res[i].o])

(* ---------------------------------------------------- resolution -------- *)
(* C: [ents, dir, gv]  gv: the numeric constants of the config              *)
IsNumEnt(e) == e.t = "n" \/ (e.t = "s" /\ IsNumText(e.s))
ConstVars(ents) == TLCEval([key \in {ents[i].key : i \in {j \in 1..Len(ents) : IsNumEnt(ents[j])}} |->
                      VQ(NumTextVal(EntAt(ents, key).s))])

First(s) == Split(s, "::")[1]
(* config keys that an entry refers to by name or as start of a path *)
RefsOf(C, e) == IF e.t # "s" \/ IsNumText(e.s) THEN {}
  ELSE LET N == Names(Parse(e.s)) IN {x \in {First(y) : y \in N} : x \in EntKeys(C.ents)}
RefEdges(C) == TLCEval([key \in EntKeys(C.ents) |-> RefsOf(C, EntAt(C.ents, key))])

WithConst(o, gv) == CASE o.k = "eq" -> EqSetDefs(o, gv)
                      [] o.k = "grp" -> GrpSetDefs(o, gv)
                      [] o.k = "dir" -> DirSetDefs(o, gv, TRUE)
                      [] o.k = "q" -> Eq(Num(o.q), gv, TRUE)
                      [] OTHER -> o
Pick(S) == CHOOSE x \in S : TRUE

RECURSIVE ResText(_, _), ResAst(_, _)
ResText(C, text) ==
  WithConst(
    IF IsNumText(text) THEN EqText(text, NoDefs)
    ELSE IF HasOp(text) THEN ResAst(C, Parse(text))
    ELSE IF text \in EntKeys(C.ents)
         THEN LET o == ResText(C, EntAt(C.ents, text).s)
              (* an entry that reads an input with its own name: everywhere    *)
              (* else that name is the entry                                   *)
              IN  IF o.k = "eq" /\ text \in EqNames(o) THEN EqText(text, NoDefs) ELSE o
    ELSE IF Has(text, "::") /\ First(text) \in EntKeys(C.ents)
         THEN LET o == ResText(C, First(text))
                  r == SubSeq(text, Len(First(text)) + 3, Len(text))
                  S == Get(o, r)
              IN  IF S = {} THEN [k |-> "keyerr"] ELSE Pick(S)
    ELSE LET S == DirName(C.dir, text)
         IN  IF S # {} THEN Pick(S) ELSE EqText(text, NoDefs),
    C.gv)

IsErrObj(o) == o.k \in {"keyerr", "typeerr"}
ResAst(C, a) ==
  CASE a.n = "num" -> Eq(a, NoDefs, TRUE)
    [] a.n = "var" -> ResText(C, a.s)
    [] a.n = "neg" -> LET x == ResAst(C, a.l) IN IF x.k # "eq" THEN [k |-> "typeerr"] ELSE EqNeg(x)
    [] a.n = "bin" -> LET x == ResAst(C, a.l)
                          y == ResAst(C, a.r)
                      IN  IF x.k # "eq" \/ y.k # "eq" THEN [k |-> "typeerr"] ELSE EqOp(a.op, x, y)
    [] a.n = "call" -> Eq(a, C.gv, FALSE)      (* the text inside stays as it is *)
    [] OTHER -> Eq(Bad, C.gv, FALSE)

(* ------------------------------------------------------ construction ---- *)
FlagOf(ents, key, dflt) == IF key \in EntKeys(ents) THEN EntAt(ents, key).b ELSE dflt

(* the names of all equations' inputs etc.; ents after pointers, without    *)
(* reserved keys.  Result: items as for groups, and the constants.          *)
BuildConfig(ents0, dir) ==
  LET ents == SelectSeq(ents0, LAMBDA e : e.key \notin Reserved)
      C == [ents |-> ents, dir |-> dir, gv |-> ConstVars(ents)]
      n == Len(ents)
      bad == UNION {IF IsNumText(ents[i].key) \/ ents[i].t \notin {"s", "n"} THEN {"any"} ELSE {} : i \in 1..n}
      brk == UNION {IF ents[i].t = "s" /\ HasOp(ents[i].s) /\ Bracket(ents[i].s)
                    THEN {"any"} ELSE {} : i \in 1..n}
      ill == UNION {IF ents[i].t = "s" /\ IsIllegal(ents[i].s) THEN {"ValueError"} ELSE {} : i \in 1..n}
      cyc == IF Cyclic(RefEdges(C)) THEN {"RuntimeError"} ELSE {}
      objs == TLCEval([i \in 1..n |-> ResText(C, ents[i].s)])
  IN  IF bad \cup brk \cup cyc \cup ill # {} THEN Fail(bad \cup brk \cup cyc \cup ill)
      ELSE IF \E i \in 1..n : IsErrObj(objs[i]) THEN Fail({"any"})
      ELSE LET items == [i \in 1..n |-> [key |-> ents[i].key, o |-> objs[i]]]
               cst == {i \in 1..n : objs[i].k = "eq" /\ EqNames(objs[i]) = {}}
               gl == TLCEval([key \in {ents[i].key : i \in cst} |->
                        Ev(objs[CHOOSE i \in 1..n : ents[i].key = key].ast, NoDefs)])
           IN  IF \E key \in DOMAIN gl : gl[key].t = "e" THEN Fail({"any"})
               ELSE OK([k |-> "cfg", items |-> items, gl |-> gl @@ C.gv,
                        inp |-> NoDefs, out |-> NoDefs, outok |-> "yes"])

(* ---------------------------------------------------- derived facts ----- *)
EqKeys(c)  == {c.items[i].key : i \in {j \in 1..Len(c.items) : c.items[j].o.k = "eq"}}
Computed(c) == EqKeys(c) \ DOMAIN c.gl
(* plain numbers are constants and not part of the outputs *)
OutKeys(c) == {key \in EqKeys(c) : ~Obj(c, key).num}

Required(c) == UNION {{v \in EqNames(Obj(c, key)) :
                         /\ v \notin DOMAIN c.gl
                         /\ (v \notin Keys(c) \/ v = key)
                         /\ v \notin DOMAIN Obj(c, key).defs} : key \in EqKeys(c)}
Missing(c)  == Required(c) \ DOMAIN c.inp
Solvable(c) == Missing(c) = {}
AllVars(c)  == DOMAIN c.gl \cup UNION {EqNames(Obj(c, key)) : key \in EqKeys(c)}
ToBeSolved(c) == Computed(c) \ DOMAIN c.out

(* entries that wait for other entries *)
DepEdges(c) == LET S == Computed(c) IN
  TLCEval([key \in S |-> (EqNames(Obj(c, key)) \cap S) \ {key}])

(* value of an entry for the current inputs: computed entries, then inputs, *)
(* then constants of the config, then library defaults                      *)
ValueOf(c, key, deps, done) ==
  LET e == Obj(c, key)
      env == [v \in deps |-> done[v]] @@ c.inp @@ c.gl @@ e.defs
  IN  IF EqNames(e) \ DOMAIN env # {} THEN VE
      ELSE Ev(e.ast, env @@ ("#in" :> DOMAIN c.inp \ deps))
RECURSIVE Solve(_, _, _)
Solve(c, E, done) ==
  LET ready == {key \in DOMAIN E \ DOMAIN done : E[key] \subseteq DOMAIN done}
  IN  IF ready = {} THEN done
      ELSE Solve(c, E, TLCEval([key \in ready |-> ValueOf(c, key, E[key], done)] @@ done))
(* all entries that do not wait for a circle *)
Solution(c) == TLCEval(Solve(c, DepEdges(c), NoDefs))
Evaluable(c) == Solvable(c) /\ ~Cyclic(DepEdges(c))
(* what can be in the outputs when an evaluation stops half way *)
PartOutputs(c) ==
  LET sol == Solution(c)
  IN  TLCEval([key \in {k \in OutKeys(c) : k \in DOMAIN sol \/ k \in DOMAIN c.gl}
         |-> IF key \in DOMAIN sol THEN sol[key] ELSE c.gl[key]])
AllOutputs(c) == PartOutputs(c)
=============================================================================
