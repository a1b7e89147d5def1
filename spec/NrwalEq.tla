------------------------------ MODULE NrwalEq ------------------------------
(* Values, exact evaluation of syntax trees, and Equation objects.          *)
(*                                                                          *)
(* A value is [t |-> "q", v |-> <<n, d>>]   one number (exact rational)     *)
(*            [t |-> "a", v |-> seq of <<n, d>>]  an array of numbers       *)
(*            [t |-> "e"]    python raises while evaluating                 *)
(*            [t |-> "u"]    not determined by this specification (result   *)
(*                           is irrational, infinite, or outside the exact  *)
(*                           32 bit range); conformance accepts anything    *)
EXTENDS NrwalText

VQ(q) == IF Unk(q) THEN [t |-> "u"] ELSE [t |-> "q", v |-> q]
VU == [t |-> "u"]
VE == [t |-> "e"]
B2Q(b) == IF b THEN <<1, 1>> ELSE <<0, 1>>

QCmp(op, a, b) ==
  LET c == QComp(a, b) IN
  IF c = 2 THEN UNK ELSE
  B2Q(CASE op = "<"  -> c < 0
        [] op = ">"  -> c > 0
        [] op = "<=" -> c <= 0
        [] op = ">=" -> c >= 0
        [] op = "==" -> c = 0
        [] op = "!=" -> c # 0)
QOp(op, a, b) == CASE op = "+" -> QAdd(a, b)
                   [] op = "-" -> QSub(a, b)
                   [] op = "*" -> QMul(a, b)
                   [] op = "/" -> QDiv(a, b)
                   [] op = "^" -> QPow(a, b)
                   [] op = "max" -> QMax(a, b)
                   [] op = "min" -> QMin(a, b)
                   [] OTHER -> QCmp(op, a, b)

(* elements that are not determined stay UNK, the others are compared *)
VA(s) == [t |-> "a", v |-> s]

(* numpy broadcasting of numbers and one dimensional arrays *)
Lift2(op, x, y) ==
  CASE x.t = "e" \/ y.t = "e" -> VE
    [] x.t = "u" \/ y.t = "u" -> VU
    [] x.t = "q" /\ y.t = "q" -> VQ(QOp(op, x.v, y.v))
    [] x.t = "a" /\ y.t = "q" -> VA([i \in 1..Len(x.v) |-> QOp(op, x.v[i], y.v)])
    [] x.t = "q" /\ y.t = "a" -> VA([i \in 1..Len(y.v) |-> QOp(op, x.v, y.v[i])])
    [] Len(x.v) = Len(y.v) -> VA([i \in 1..Len(x.v) |-> QOp(op, x.v[i], y.v[i])])
    [] Len(x.v) = 1 -> VA([i \in 1..Len(y.v) |-> QOp(op, x.v[1], y.v[i])])
    [] Len(y.v) = 1 -> VA([i \in 1..Len(x.v) |-> QOp(op, x.v[i], y.v[1])])
    [] OTHER -> VE

Map1(F(_), x) == CASE x.t = "q" -> VQ(F(x.v))
                   [] x.t = "a" -> VA([i \in 1..Len(x.v) |-> F(x.v[i])])
                   [] OTHER -> x

RECURSIVE Reduce(_, _)
Reduce(op, s) == IF Len(s) = 1 THEN s[1] ELSE QOp(op, s[1], Reduce(op, Tail(s)))
Fold1(op, x) == CASE x.t = "a" -> IF Len(x.v) = 0 THEN VU ELSE VQ(Reduce(op, x.v))
                  [] OTHER -> x

VWhere(c, x, y) ==
  IF c.t = "e" \/ x.t = "e" \/ y.t = "e" THEN VE
  ELSE IF c.t = "u" \/ x.t = "u" \/ y.t = "u" THEN VU
  ELSE IF c.t = "q" /\ x.t = "q" /\ y.t = "q" THEN (IF ~Exact(c.v) THEN VU ELSE IF c.v[1] # 0 THEN x ELSE y)
  ELSE LET L(z) == IF z.t = "q" THEN 1 ELSE Len(z.v)
           S == {L(c), L(x), L(y)} \ {1}
           n == IF S = {} THEN 1 ELSE CHOOSE k \in S : TRUE
           At(z, i) == IF z.t = "q" THEN z.v ELSE IF Len(z.v) = 1 THEN z.v[1] ELSE z.v[i]
       IN  IF \E k \in S : k # n THEN VE
           ELSE VA([i \in 1..n |-> IF ~Exact(At(c, i)) THEN UNK ELSE IF At(c, i)[1] # 0 THEN At(x, i) ELSE At(y, i)])

(* piecewise linear interpolation, constant outside of the range *)
InterpAt(x, xp, fp) ==
  LET n == Len(xp)
      ge == {i \in 1..n : QComp(xp[i], x) \in {0, 1}}       (* xp[i] >= x *)
      j == CHOOSE i \in ge : \A k \in ge : i <= k
  IN  IF \E i \in 1..n : QComp(xp[i], x) = 2 THEN UNK
      ELSE IF ge = {} THEN fp[n]
      ELSE IF j = 1 \/ QComp(xp[j], x) = 0 THEN fp[j]
      ELSE QAdd(fp[j - 1], QMul(QDiv(QSub(fp[j], fp[j - 1]), QSub(xp[j], xp[j - 1])), QSub(x, xp[j - 1])))
VInterp(x, xp, fp) ==
  IF x.t = "e" \/ xp.t = "e" \/ fp.t = "e" THEN VE
  ELSE IF x.t = "u" \/ xp.t # "a" \/ fp.t # "a" THEN VU
  ELSE IF Len(xp.v) # Len(fp.v) \/ Len(xp.v) = 0 THEN VU
  ELSE IF x.t = "q" THEN VQ(InterpAt(x.v, xp.v, fp.v))
  ELSE VA([i \in 1..Len(x.v) |-> InterpAt(x.v[i], xp.v, fp.v)])

VCall(f, a) ==
  CASE f \in {"np.maximum", "np.fmax"} /\ Len(a) = 2 -> Lift2("max", a[1], a[2])
    [] f \in {"np.minimum", "np.fmin"} /\ Len(a) = 2 -> Lift2("min", a[1], a[2])
    [] f = "np.add" /\ Len(a) = 2 -> Lift2("+", a[1], a[2])
    [] f = "np.subtract" /\ Len(a) = 2 -> Lift2("-", a[1], a[2])
    [] f = "np.multiply" /\ Len(a) = 2 -> Lift2("*", a[1], a[2])
    [] f = "np.divide" /\ Len(a) = 2 -> Lift2("/", a[1], a[2])
    [] f = "np.where" /\ Len(a) = 3 -> VWhere(a[1], a[2], a[3])
    [] f \in {"np.abs", "np.absolute"} /\ Len(a) = 1 -> Map1(QAbs, a[1])
    [] f = "np.square" /\ Len(a) = 1 -> Map1(QSq, a[1])
    [] f = "np.negative" /\ Len(a) = 1 -> Map1(QNeg, a[1])
    [] f = "np.sqrt" /\ Len(a) = 1 -> Map1(QSqrt, a[1])
    [] f = "np.exp" /\ Len(a) = 1 -> Map1(QExp, a[1])
    [] f = "np.log" /\ Len(a) = 1 -> Map1(QLn, a[1])
    [] f = "np.sign" /\ Len(a) = 1 -> Map1(QSign, a[1])
    [] f \in {"np.max", "np.amax"} /\ Len(a) = 1 -> Fold1("max", a[1])
    [] f \in {"np.min", "np.amin"} /\ Len(a) = 1 -> Fold1("min", a[1])
    [] f = "np.interp" /\ Len(a) = 3 -> VInterp(a[1], a[2], a[3])
    [] f \in {"np.sum", "np.nansum"} /\ Len(a) = 1 -> Fold1("+", a[1])
    [] f = "np.array" /\ Len(a) = 1 -> a[1]
    [] OTHER -> VU

(* numpy refuses negative powers of the integers that it makes from integer  *)
(* literals, np.square(2) ** -1                                              *)
RECURSIVE HasCall(_)
HasCall(a) == CASE a.n \in {"call", "arr"} -> TRUE
                [] a.n = "neg" -> HasCall(a.l)
                [] a.n = "bin" -> HasCall(a.l) \/ HasCall(a.r)
                [] OTHER -> FALSE
NegVal(v) == CASE v.t = "q" -> v.v[1] < 0
               [] v.t = "a" -> \E i \in 1..Len(v.v) : v.v[i][1] < 0 \/ Unk(v.v[i])
               [] OTHER -> FALSE
(* numbers that are given as inputs are real numbers, also if they are        *)
(* written as integers; env["#in"] has the names of the inputs                *)
RECURSIVE HasChoice(_)
HasChoice(a) == CASE a.n = "call" -> a.f = "np.where" \/ \E i \in 1..Len(a.args) : HasChoice(a.args[i])
                  [] a.n = "arr" -> \E i \in 1..Len(a.args) : HasChoice(a.args[i])
                  [] a.n = "neg" -> HasChoice(a.l)
                  [] a.n = "bin" -> HasChoice(a.l) \/ HasChoice(a.r)
                  [] OTHER -> FALSE
Real(a, env) == /\ "#in" \in DOMAIN env
                /\ Names(a) # {} /\ Names(a) \subseteq env["#in"]
                /\ \A x \in Names(a) : env[x].t = "q"
                /\ ~HasChoice(a)
Soft(a, r, v, env) == IF a.op = "^" /\ NegVal(r) /\ HasCall(a) /\ v.t # "e" /\ ~Real(a.l, env) THEN VU ELSE v

RECURSIVE Ev(_, _)
(* value of a syntax tree, env is a function from names to values *)
Ev(a, env) ==
  CASE a.n = "num" -> VQ(a.q)
    [] a.n = "var" -> IF a.s \in DOMAIN env THEN env[a.s]
                      ELSE IF IsMethod(a.s) THEN VU ELSE VE
    [] a.n = "neg" -> Map1(QNeg, Ev(a.l, env))
    [] a.n = "bin" -> LET r == Ev(a.r, env) IN Soft(a, r, Lift2(a.op, Ev(a.l, env), r), env)
    [] a.n = "arr" -> LET s == [i \in 1..Len(a.args) |-> Ev(a.args[i], env)]
                      IN  IF \A i \in 1..Len(s) : s[i].t = "q"
                          THEN VA([i \in 1..Len(s) |-> s[i].v]) ELSE VU
    [] a.n = "call" -> VCall(a.f, [i \in 1..Len(a.args) |-> Ev(a.args[i], env)])
    [] OTHER -> VU

(* ---------------------------------------------------------- Equations -- *)
(* ast  syntax tree, defs  default variables, num  TRUE for a plain number, *)
(* name  the name of the equation ("" if it has none)                       *)
Eq(ast, defs, num) == [k |-> "eq", ast |-> ast, defs |-> defs, num |-> num]

NoDefs == [x \in {} |-> VU]

EqText(text, defs) ==
  IF IsNumText(text) THEN Eq(Num(NumTextVal(text)), defs, TRUE)
  ELSE Eq(Parse(text), defs, FALSE)

EqNames(e) == Names(e.ast)

(* text that NRWAL refuses to evaluate *)
ILLEGAL == {"import ", "os.", "sys.", ".__", "__.", "eval", "exec"}
IsIllegal(text) == \E s \in ILLEGAL : Has(text, s)

(* right operand wins where both operands have a default for a variable *)
EqOp(op, a, b) == Eq(Bin(op, a.ast, b.ast), TLCEval(b.defs @@ a.defs), FALSE)
EqNeg(a)       == Eq(Neg(a.ast), a.defs, FALSE)
EqSetDefs(e, d) == [e EXCEPT !.defs = TLCEval(d @@ @)]

(* inputs overwrite defaults; a missing name is a RuntimeError *)
EqMissing(e, kw) == EqNames(e) \ (DOMAIN kw \cup DOMAIN e.defs)
EqEval(e, kw) == IF EqMissing(e, kw) # {} THEN VE ELSE Ev(e.ast, kw @@ e.defs @@
                                                                  ("#in" :> DOMAIN kw))
=============================================================================
