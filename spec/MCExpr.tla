------------------------------- MODULE MCExpr -------------------------------
(* All expression trees with up to MaxOps operators (and one sign anywhere), *)
(* written down with the fewest possible and with all parentheses.           *)
(* Checked here: the grammar of NrwalText reads each text as the tree it     *)
(* was written from.  The texts are then given to the code.                  *)
EXTENDS NrwalSession, Json
CONSTANTS MaxOps, Signs
VARIABLES t, done

Ops == {"+", "-", "*", "/", "^"}
RECURSIVE Shapes(_)
Shapes(n) == IF n = 0 THEN {Var("?")}
             ELSE UNION {{Bin(op, l, r) : op \in Ops, l \in Shapes(i), r \in Shapes(n - 1 - i)} : i \in 0..(n - 1)}
RECURSIVE Negs(_)
Negs(a) == {Neg(a)} \cup
           (IF a.n = "bin" THEN {Bin(a.op, x, a.r) : x \in Negs(a.l)} \cup {Bin(a.op, a.l, x) : x \in Negs(a.r)}
            ELSE {})
RECURSIVE Lab(_, _)
(* the leaves are named v1, v2, ... from left to right *)
Lab(a, k) ==
  CASE a.n = "var" -> <<Var("v" \o ToString(k)), k + 1>>
    [] a.n = "neg" -> LET x == Lab(a.l, k) IN <<Neg(x[1]), x[2]>>
    [] a.n = "bin" -> LET x == Lab(a.l, k)
                          y == Lab(a.r, x[2])
                      IN  <<Bin(a.op, x[1], y[1]), y[2]>>
Trees == LET S == UNION {Shapes(k) : k \in 1..MaxOps}
         IN  S \cup (IF Signs THEN UNION {Negs(a) : a \in S} ELSE {})

Prec(a) == CASE a.n = "var" -> 9
             [] a.n = "neg" -> 3
             [] a.n = "bin" -> (IF a.op \in {"+", "-"} THEN 1 ELSE IF a.op = "^" THEN 4 ELSE 2)
RECURSIVE Ren(_, _)
Par(s) == "(" \o s \o ")"
Ren(a, full) ==
  LET lft(x, p) == LET s == Ren(x, full) IN
                   IF x.n = "var" THEN s
                   ELSE IF full \/ Prec(x) < p \/ (p = 4) THEN Par(s) ELSE s
      rgt(x, p) == LET s == Ren(x, full) IN
                   IF x.n = "var" THEN s
                   ELSE IF full THEN Par(s)
                   ELSE IF x.n = "neg" THEN s                (* a * -b, a ** -b *)
                   ELSE IF p = 4 THEN (IF Prec(x) = 4 THEN s ELSE Par(s))
                   ELSE IF Prec(x) <= p THEN Par(s) ELSE s
  IN  CASE a.n = "var" -> a.s
        [] a.n = "neg" -> "-" \o (LET s == Ren(a.l, full) IN
                                  IF a.l.n = "var" THEN s
                                  ELSE IF full \/ Prec(a.l) < 4 THEN Par(s) ELSE s)
        [] a.n = "bin" -> lft(a.l, Prec(a)) \o a.op \o rgt(a.r, Prec(a))

Init == t \in {Lab(a, 1)[1] : a \in Trees} /\ done = FALSE
Next == /\ ~done
        /\ done' = TRUE
        /\ t' = t
        /\ PrintT("@C " \o ToJson([t |-> t, min |-> Ren(t, FALSE), full |-> Ren(t, TRUE)]))
ReadBack == Parse(Ren(t, FALSE)) = t /\ Parse(Ren(t, TRUE)) = t
(* both texts have the value of the tree *)
SameValue == LET env == [x \in Names(t) |-> VQ(IF x = "v1" THEN <<3, 1>> ELSE IF x = "v2" THEN <<5, 2>>
                                               ELSE IF x = "v3" THEN <<2, 1>> ELSE <<-1, 1>>)]
             IN  Ev(Parse(Ren(t, FALSE)), env) = Ev(t, env)
(* all of them, once per case (in the second state, where TLC is parallel) *)
Checked == done => ReadBack /\ SameValue
=============================================================================
