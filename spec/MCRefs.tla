------------------------------- MODULE MCRefs -------------------------------
(* All reference graphs over Nodes entries, as config and as group.          *)
(* Checked here: a config is refused exactly if its references have a circle *)
(* and otherwise no order of the entries changes outputs or required inputs; *)
(* a group likewise, and its equations have no name of the group left.       *)
EXTENDS NrwalSession, Json, FiniteSetsExt, SequencesExt
CONSTANTS Nodes, SelfRefs
VARIABLES g, done

Key(i) == <<"alpha", "alph", "beta", "be">>[i]
N == 1..Nodes
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN "" ELSE s[1] \o Cat(Tail(s))
Text(i) == Cat(<<"x", IF i % 2 = 0 THEN " * 2" ELSE "">>
               \o [j \in N |-> IF <<i, j>> \in g THEN (IF j % 2 = 0 THEN " - " ELSE " + ") \o Key(j) ELSE ""])
Ent(i) == [key |-> Key(i), t |-> "s", s |-> Text(i)]
Item(i) == [key |-> Key(i), t |-> "e", s |-> Text(i), items |-> <<>>]
NoFl == [ip |-> FALSE, np |-> FALSE, iy |-> FALSE, ny |-> FALSE]
Empty == BuildDir(<<>>, NoFl).o
Perms == {p \in [N -> N] : \A i, j \in N : i # j => p[i] # p[j]}

(* a closed walk, independent of Cyclic *)
HasCircle == \E p \in [1..Nodes -> N] : \E m \in 1..Nodes :
               /\ \A i \in 1..(m - 1) : <<p[i], p[i + 1]>> \in g
               /\ <<p[m], p[1]>> \in g

Init == g \in SUBSET {e \in N \X N : SelfRefs \/ e[1] # e[2]} /\ done = FALSE
Next == /\ ~done
        /\ done' = TRUE
        /\ g' = g
        /\ PrintT("@C " \o ToJson([keys |-> [i \in N |-> Key(i)], texts |-> [i \in N |-> Text(i)],
                                   edges |-> SetToSeq(g)]))

Cfg(p) == BuildConfig([i \in N |-> Ent(p[i])], Empty)
In == [v \in {"x"} |-> VQ(<<3, 1>>)]
Outs(p) == AllOutputs([Cfg(p).o EXCEPT !.inp = In])
Id == [i \in N |-> i]
CircleRefused == HasCircle <=> ~Cfg(Id).ok
OrderFree == ~HasCircle => \A p \in Perms : Cfg(p).ok /\ Outs(p) = Outs(Id) /\ Required(Cfg(p).o) = {"x"}
Complete  == ~HasCircle => DOMAIN Outs(Id) = {Key(i) : i \in N}
GroupSame == LET b == BuildGroup([i \in N |-> Item(i)], NoFl)
             IN  /\ b.ok <=> ~HasCircle
                 /\ b.ok => \A i \in N : /\ EqNames(Obj(b.o, Key(i))) = {"x"}
                                         /\ EqEval(Obj(b.o, Key(i)), In) = Outs(Id)[Key(i)]
(* all of them, once per case (in the second state, where TLC is parallel) *)
Checked == done => CircleRefused /\ Complete /\ GroupSame /\ OrderFree
=============================================================================
