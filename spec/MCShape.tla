------------------------------ MODULE MCShape ------------------------------
(* Every combination of one number, an array of one element and arrays of    *)
(* other lengths as the two inputs of a text.  Checked here: a text refuses  *)
(* arrays that do not fit, and otherwise has at each position the value that *)
(* it has for the numbers at this position.                                  *)
EXTENDS NrwalSession, Json
CONSTANTS MaxLen
VARIABLES t, sx, sy, done
Texts == {"x + y", "x - y", "x * 2", "y / x", "(x + 1) * (y - 3)", "-x", "x ** 2 - y", "2 ** y * x", "np.abs(x) - y",
          "np.maximum(x, y)", "np.minimum(x, 2) + y", "np.where(x > y, x, y * 2)", "np.where(x > 1, 5, 7)",
          "np.square(x - y) / 4", "x * x - x", "1 - (x - (y - 1))", "3", "np.interp(x, [1, 2, 5], [10, 30, 0])"}
Xs == <<<<3, 1>>, <<-2, 1>>, <<1, 2>>, <<5, 1>>, <<1, 1>>>>
Ys == <<<<2, 1>>, <<4, 1>>, <<-1, 1>>, <<1, 4>>, <<3, 1>>>>
(* 0 is one number, k an array of k elements, -1 an array without any *)
Shapes == -1..MaxLen
Val(s, E) == IF s = 0 THEN VQ(E[1]) ELSE VA(IF s = -1 THEN <<>> ELSE SubSeq(E, 1, s))
L(s) == IF s = -1 THEN 0 ELSE IF s = 0 THEN 1 ELSE s
Init == t \in Texts /\ sx \in Shapes /\ sy \in Shapes /\ done = FALSE
Ast == Parse(t)
Used == Names(Ast)
Env == [v \in {"x", "y"} |-> IF v = "x" THEN Val(sx, Xs) ELSE Val(sy, Ys)]
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED <<t, sx, sy>>
        /\ PrintT("@C " \o ToJson([s |-> t, sx |-> sx, sy |-> sy, env |-> Env]))
Of(v) == IF v = "x" THEN sx ELSE sy
Lens == {L(Of(v)) : v \in Used}
Fit == Cardinality(Lens \ {1}) <= 1
N == IF Lens \ {1} = {} THEN 1 ELSE CHOOSE k \in Lens \ {1} : TRUE
At1(v, E, i) == VQ(IF L(Of(v)) = 1 THEN E[1] ELSE E[i])
Point(i) == [v \in {"x", "y"} |-> IF v = "x" THEN At1(v, Xs, i) ELSE At1(v, Ys, i)]
Res == Ev(Ast, Env)
(* an array if any of its inputs is one, even of one element *)
Elem == IF ~Fit THEN Res.t = "e"
        ELSE IF \A v \in Used : Of(v) = 0 THEN Res.t \in {"q", "u"}
        ELSE /\ Res.t = "a" /\ Len(Res.v) = N
             /\ \A i \in 1..N : LET p == Ev(Ast, Point(i)) IN IF p.t = "u" THEN Unk(Res.v[i]) ELSE Res.v[i] = p.v
Checked == done => Elem
=============================================================================
