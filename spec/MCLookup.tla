------------------------------ MODULE MCLookup ------------------------------
(* All groups with sizes from Sizes and years from Years of one base name    *)
(* (and a second, longer base name), all lookup options, all requests.       *)
(* Checked here: existing keys are returned; nearest is nearest; a line has  *)
(* the value of both of its points, lies between them inside, and is affine. *)
EXTENDS NrwalSession, Json, SequencesExt
CONSTANTS Sizes, Years, AskS, AskY
VARIABLES s, y, fl, done
NoFl == [ip |-> FALSE, np |-> FALSE, iy |-> FALSE, ny |-> FALSE]
Fls == {NoFl, [NoFl EXCEPT !.ip = TRUE], [NoFl EXCEPT !.np = TRUE], [NoFl EXCEPT !.iy = TRUE],
        [NoFl EXCEPT !.ny = TRUE], [NoFl EXCEPT !.ip = TRUE, !.iy = TRUE], [NoFl EXCEPT !.np = TRUE, !.ny = TRUE],
        [NoFl EXCEPT !.ip = TRUE, !.ny = TRUE], [NoFl EXCEPT !.np = TRUE, !.iy = TRUE]}
PKey(b, v) == b \o "_" \o ToString(v) \o "MW"
YKey(b, v) == b \o "_" \o ToString(v)
(* not linear in the size, so that every pair of points has another line *)
Txt1(v) == "x * " \o ToString(v * v) \o " - " \o ToString(v)
It(k, t) == [key |-> k, t |-> "e", s |-> t, items |-> <<>>]
Items == LET S == SetToSeq(s)
             Y == SetToSeq(y)
         IN  [i \in 1..Len(S) |-> It(PKey("c", S[i]), Txt1(S[i]))]
             \o [i \in 1..Len(Y) |-> It(YKey("c", Y[i]), Txt1(Y[i] - 1990))]
             \o <<It("cc_4MW", "x * 77"), It("cc_2011", "x * 78"), It("c", "x * 79"), It("c_4", "x * 76")>>
Init == s \in SUBSET Sizes /\ y \in SUBSET Years /\ fl \in Fls /\ done = FALSE
Asks == {PKey("c", v) : v \in AskS} \cup {YKey("c", v) : v \in AskY}
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED <<s, y, fl>>
        /\ PrintT("@C " \o ToJson([items |-> Items, fl |-> fl, asks |-> SetToSeq(Asks)]))
G == BuildGroup(Items, fl).o
In == [v \in {"x"} |-> VQ(<<2, 1>>)]
ValOf(e) == EqEval(e, In)
PtAt(v) == <<2 * v * v - v, 1>>            (* value of Txt1(v) for x = 2 *)
ExactFirst == \A v \in s : Get(G, PKey("c", v)) = {Obj(G, PKey("c", v))}
OnlyOwnKind == /\ (~fl.ip /\ ~fl.np => \A v \in AskS \ s : Get(G, PKey("c", v)) = {})
               /\ (~fl.iy /\ ~fl.ny => \A v \in AskY \ y : Get(G, YKey("c", v)) = {})
               /\ (s = {} => \A v \in AskS : Get(G, PKey("c", v)) = {})
NearestIs == fl.np => \A v \in AskS \ s : \A o \in Get(G, PKey("c", v)) :
               \E w \in s : ValOf(o).v = PtAt(w) /\ \A u \in s : Abs(w - v) <= Abs(u - v)
(* the line through the points a and b at v, written without the operators *)
(* of NrwalGroup                                                           *)
OnLine(a, b, v) == LET ya == PtAt(a)[1]
                       yb == PtAt(b)[1]
                   IN  Mk(ya * (b - a) + (yb - ya) * (v - a), b - a)
LineIs == fl.ip /\ Cardinality(s) > 1 => \A v \in AskS \ s : \A o \in Get(G, PKey("c", v)) :
            \E a, b \in s : /\ a < b
                            /\ ValOf(o) = VQ(OnLine(a, b, v))
                            /\ ~\E u \in s : a < u /\ u < b                    (* neighbours *)
                            /\ (\E u \in s : u < v) /\ (\E u \in s : u > v) => a < v /\ v < b
                            /\ (\A u \in s : u < v) => \A u \in s : u <= b
                            /\ (\A u \in s : u > v) => \A u \in s : a <= u
Single == (fl.ip \/ fl.np) /\ Cardinality(s) = 1 => \A v \in AskS : \A o \in Get(G, PKey("c", v)) :
            \E w \in s : ValOf(o).v = PtAt(w)
(* all of them, once per case (in the second state, where TLC is parallel) *)
Checked == done => ExactFirst /\ LineIs /\ NearestIs /\ OnlyOwnKind /\ Single
=============================================================================
