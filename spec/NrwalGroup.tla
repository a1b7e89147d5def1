---------------------------- MODULE NrwalGroup ----------------------------
(* Equation groups: named equations and nested groups (one yaml/json file). *)
(* A group is [k |-> "grp", items |-> seq of [key, o], fl |-> flags,        *)
(*             defs |-> default variables]                                  *)
(* flags: ip/np interpolate / nearest by power, iy/ny the same by year.     *)
(* A variable group (variables.yaml) is [k |-> "vars", items |-> seq of     *)
(* [key, q]].                                                               *)
EXTENDS NrwalEq

Grp(items, fl, defs) == [k |-> "grp", items |-> items, fl |-> fl, defs |-> defs]
Keys(g)    == {g.items[i].key : i \in 1..Len(g.items)}
At(g, key) == (CHOOSE i \in 1..Len(g.items) : g.items[i].key = key)
Obj(g, key) == g.items[At(g, key)].o
KeySeq(g)  == [i \in 1..Len(g.items) |-> g.items[i].key]

(* ----------------------------------------------- local substitution ----- *)
(* A name that is also the name of an equation in the same group stands for *)
(* that equation.  raw: function from key to syntax tree.                   *)
RECURSIVE Subst(_, _)
Subst(a, raw) ==
  CASE a.n \in {"num", "bad"} -> a
    [] a.n = "var" -> IF a.s \in DOMAIN raw THEN Subst(raw[a.s], raw) ELSE a
    [] a.n = "neg" -> Neg(Subst(a.l, raw))
    [] a.n = "bin" -> Bin(a.op, Subst(a.l, raw), Subst(a.r, raw))
    [] a.n = "arr" -> Arr([i \in 1..Len(a.args) |-> Subst(a.args[i], raw)])
    [] a.n = "call" -> Call(a.f, [i \in 1..Len(a.args) |-> Subst(a.args[i], raw)],
                            [i \in 1..Len(a.kws) |-> <<a.kws[i][1], Subst(a.kws[i][2], raw)>>])

(* is there a cycle of references in edges: function from name to names *)
RECURSIVE Peel(_, _)
Peel(S, edges) == LET T == TLCEval({x \in S : edges[x] \cap S # {}})
                  IN  IF T = S THEN S ELSE Peel(T, edges)
(* the nodes from which a circle can be reached *)
Stuck(edges)  == Peel(DOMAIN edges, edges)
Cyclic(edges) == Stuck(edges) # {}

(* ------------------------------------------------------- construction -- *)
(* spec item: [key, t, s, items]: t = "e" equation text, "n" number,        *)
(* "g" nested group, "x" a value of another type                            *)
OK(o)   == [ok |-> TRUE, o |-> o]
Fail(E) == [ok |-> FALSE, errs |-> E]

RECURSIVE BuildGroup(_, _)
BuildGroup(items, fl) ==
  LET n == Len(items)
      sub == TLCEval([i \in 1..n |-> IF items[i].t = "g" THEN BuildGroup(items[i].items, fl) ELSE OK(<<>>)])
      eqk == {i \in 1..n : items[i].t \in {"e", "n"}}
      raw == TLCEval([key \in {items[i].key : i \in eqk} |->
                EqText(items[CHOOSE i \in eqk : items[i].key = key].s, NoDefs)])
      edges == TLCEval([key \in DOMAIN raw |-> EqNames(raw[key])])
      asts == [key \in DOMAIN raw |-> raw[key].ast]
      errs == UNION {IF IsNumText(items[i].key) THEN {"ValueError"} ELSE {} : i \in 1..n}
         \cup UNION {IF items[i].t = "x" THEN {"TypeError"} ELSE {} : i \in 1..n}
         \cup UNION {IF ~sub[i].ok THEN sub[i].errs ELSE {} : i \in 1..n}
         \cup UNION {IF IsIllegal(items[i].s) THEN {"ValueError"} ELSE {} : i \in eqk}
         \cup (IF Cyclic(edges) THEN {"ValueError"} ELSE {})
      mk(i) == IF items[i].t = "g" THEN sub[i].o
               ELSE LET r == raw[items[i].key]
                    IN  IF edges[items[i].key] \cap DOMAIN raw = {} THEN r
                        ELSE Eq(Subst(r.ast, asts), NoDefs, FALSE)
  IN  IF errs # {} THEN Fail(errs)
      ELSE OK(Grp(TLCEval([i \in 1..n |-> [key |-> items[i].key, o |-> mk(i)]]), fl, NoDefs))

(* variables.yaml: names to numbers *)
BuildVars(items) ==
  LET n == Len(items)
      errs == UNION {IF IsNumText(items[i].key) THEN {"ValueError"} ELSE {} : i \in 1..n}
         \cup UNION {IF items[i].t # "n" THEN {"TypeError"} ELSE {} : i \in 1..n}
  IN  IF errs # {} THEN Fail(errs)
      ELSE OK([k |-> "vars",
               items |-> [i \in 1..n |-> [key |-> items[i].key,
                                          o |-> [k |-> "q", q |-> NumTextVal(items[i].s)]]]])
VarDict(v) == [key \in Keys(v) |-> VQ(Obj(v, key).q)]

RECURSIVE GrpSetDefs(_, _)
GrpSetDefs(g, d) == [g EXCEPT
  !.defs = TLCEval(d @@ @),
  !.items = TLCEval([i \in 1..Len(@) |-> [@[i] EXCEPT !.o =
      IF @.k = "grp" THEN GrpSetDefs(@, d) ELSE IF @.k = "eq" THEN EqSetDefs(@, d) ELSE @]])]

(* right operand wins; the result has the right operand's default variables *)
GrpAdd(a, b) ==
  LET kept == SelectSeq([i \in 1..Len(a.items) |-> a.items[i].key], LAMBDA x : TRUE)
      left == [i \in 1..Len(a.items) |->
                 IF a.items[i].key \in Keys(b) THEN [key |-> a.items[i].key, o |-> Obj(b, a.items[i].key)]
                 ELSE a.items[i]]
      right == SelectSeq(b.items, LAMBDA x : x.key \notin Keys(a))
  IN  GrpSetDefs([a EXCEPT !.items = left \o right], b.defs)

(* ------------------------------------------------ power and year keys --- *)
RECURSIVE SufDigits(_, _)
(* first position of the maximal digit run that ends at position j *)
SufDigits(s, j) == IF j >= 1 /\ Ch(s, j) \in Digit THEN SufDigits(s, j - 1) ELSE j + 1

NoSuf == [is |-> FALSE, val |-> 0, base |-> ""]
PowerOf(key) ==
  LET n == Len(key) IN
  IF n < 4 \/ SubSeq(key, n - 1, n) \notin {"MW", "mw", "Mw", "mW"} THEN NoSuf
  ELSE LET j == n - 2
           i == SufDigits(key, j)
       IN  IF i > j \/ i < 2 \/ j - i > 5 THEN NoSuf
           ELSE IF Ch(key, i - 1) # "_" THEN NoSuf
           ELSE [is |-> TRUE, val |-> NumVal(SubSeq(key, i, j))[1], base |-> SubSeq(key, 1, i - 2)]
YearOf(key) ==
  LET n == Len(key) IN
  IF n < 5 THEN NoSuf
  ELSE LET i == SufDigits(key, n)
           v == NumVal(SubSeq(key, n - 3, n))[1]
       IN  IF i > n - 3 \/ Ch(key, n - 4) # "_" \/ v < 1800 \/ v > 2200 THEN NoSuf
           ELSE [is |-> TRUE, val |-> v, base |-> SubSeq(key, 1, n - 5)]

(* the equations with the same base name, as a set of <<value, key>> *)
PowerNb(g, key) == LET p == PowerOf(key) IN
  {<<PowerOf(x).val, x>> : x \in {y \in Keys(g) : PowerOf(y).is /\ PowerOf(y).base = p.base}}
YearNb(g, key) == LET p == YearOf(key) IN
  {<<YearOf(x).val, x>> : x \in {y \in Keys(g) : YearOf(y).is /\ YearOf(y).base = p.base}}

Nearest(N, v) == {x \in N : \A y \in N : Abs(x[1] - v) <= Abs(y[1] - v)}

(* The lines that may be used for v, as pairs of points: the closest on     *)
(* either side if there are both, otherwise (extrapolation) the two closest. *)
(* If v itself is one of the points (an equation written with other case,    *)
(* cost_5mw) every line through it has the same value there.                 *)
Lines(N, v) ==
  LET below == {x \in N : x[1] < v}
      above == {x \in N : x[1] > v}
      here  == {x \in N : x[1] = v}
      lo(S) == {x \in S : \A y \in S : Abs(x[1] - v) <= Abs(y[1] - v)}
  IN  IF here # {} THEN here \X (N \ here)
      ELSE IF below # {} /\ above # {} THEN lo(below) \X lo(above)
      ELSE UNION {{a} \X lo({x \in N : x[1] # a[1]}) : a \in lo(N)}

(* a constant line is turned into its value *)
FixLine(e) == IF EqNames(e) # {} THEN e
              ELSE LET x == Ev(e.ast, NoDefs)
                   IN  Eq(Num(IF x.t = "q" THEN x.v ELSE UNK), NoDefs, TRUE)
LineEq(g, p, v) ==
  LET y1 == Obj(g, p[1][2])
      y3 == Obj(g, p[2][2])
  IN  FixLine(EqOp("+", EqOp("/", EqOp("*", EqOp("-", y3, y1), Eq(Num(<<v - p[1][1], 1>>), NoDefs, TRUE)),
                                Eq(Num(<<p[2][1] - p[1][1], 1>>), NoDefs, TRUE)), y1))

(* all objects that may be returned for a key on one level; {} : KeyError *)
LookupOne(g, key, fl, last) ==
  IF key \in Keys(g) THEN {Obj(g, key)}
  ELSE IF ~last THEN {}
  ELSE LET pow  == PowerOf(key).is /\ (fl.ip \/ fl.np)
           yr   == ~pow /\ YearOf(key).is /\ (fl.iy \/ fl.ny)
           N    == IF pow THEN PowerNb(g, key) ELSE IF yr THEN YearNb(g, key) ELSE {}
           v    == IF pow THEN PowerOf(key).val ELSE YearOf(key).val
           line == IF pow THEN fl.ip ELSE fl.iy
       IN  IF N = {} THEN {}
           ELSE IF line /\ Cardinality(N) > 1 THEN {LineEq(g, p, v) : p \in Lines(N, v)} \cup
                                                 {Obj(g, x[2]) : x \in {y \in N : y[1] = v}}
           ELSE {Obj(g, x[2]) : x \in Nearest(N, v)}

RECURSIVE GrpPath(_, _, _)
(* path: seq of keys inside a group *)
GrpPath(o, path, fl) ==
  IF o.k = "eq" THEN {}
  ELSE LET S == LookupOne(o, path[1], fl, Len(path) = 1)
       IN  IF Len(path) = 1 THEN S ELSE UNION {GrpPath(x, Tail(path), fl) : x \in S}

OpChars == {"+", "-", "*", "/", "^"}
HasOp(s) == \E i \in 1..Len(s) : Ch(s, i) \in OpChars
Bracket(s) == Has(s, "[") \/ Has(s, "]") \/ Has(s, "{") \/ Has(s, "}")

(* ------------------------------------------------------ retrieval ------- *)
(* GetName(o, name): one name or path without math.  All acceptable results *)
GrpName(g, key) ==
  IF key \notin Keys(g) /\ IsNumText(key) THEN {EqText(key, NoDefs)}
  ELSE GrpPath(g, Split(key, "::"), g.fl)
=============================================================================
