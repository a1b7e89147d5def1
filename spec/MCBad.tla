------------------------------- MODULE MCBad -------------------------------
(* Every malformed (and every unusual but valid) item, in every place of a   *)
(* library where an item can be, before, between and after other items.      *)
(* Checked here: a group, a file, a directory and every directory above are  *)
(* refused exactly if the item is malformed, wherever it is.                 *)
EXTENDS NrwalSession, Json
CONSTANTS Depth
VARIABLES kind, at, pos, done
NoFl == [ip |-> FALSE, np |-> FALSE, iy |-> FALSE, ny |-> FALSE]
It(k, s) == [key |-> k, t |-> "e", s |-> s, items |-> <<>>]
Nu(k, s) == [key |-> k, t |-> "n", s |-> s, items |-> <<>>]
X(k, s) == [key |-> k, t |-> "x", s |-> s, items |-> <<>>]
G(k, its) == [key |-> k, t |-> "g", s |-> "", items |-> its]
(* s of an "x" item says what stands there instead of an equation *)
Wrong == [numkey |-> It("12", "x"), floatkey |-> It("1.5", "x + 1"), expkey |-> It("1e3", "x"), negkey |-> It("-3", "x"),
        numnum |-> Nu("7", "3"), numgrp |-> G("5", <<It("b", "x")>>), numempty |-> G("3", <<>>),
        list |-> X("k", "list"), empty |-> X("k", "empty"), null |-> X("k", "null"), texts |-> X("k", "texts"),
        eval |-> It("k", "eval(x)"), exec |-> It("k", "x + exec_y"), import |-> It("k", "import x"),
        dunder |-> It("k", "x.__class__ + 1"), self |-> It("k", "k + 1"), twice |-> It("k", "2 * a + k"),
        deeplist |-> G("k", <<It("b", "x"), X("c", "list")>>), deepnum |-> G("k", <<It("9", "x")>>),
        deepcyc |-> G("k", <<It("b", "c + 1"), It("c", "b * 2")>>)]
Fine == [eq |-> It("k", "x * y"), num |-> Nu("k", "2.5"), text |-> It("k", "4"), uses |-> It("k", "a + 1"),
         grp |-> G("k", <<It("b", "x - a")>>), none |-> G("k", <<>>), same |-> G("k", <<It("k", "x")>>),
         mixed |-> It("k1", "k_1 + 1"), near |-> It("e1", "x"), near2 |-> It("_1", "x"), under |-> It("k", "x__y + 1"),
         deep |-> G("k", <<G("k", <<G("k", <<It("k", "x")>>)>>)>>)]
All == Wrong @@ Fine
Others == <<It("a", "x + 1"), It("z", "a * 2")>>
Init == kind \in DOMAIN All /\ at \in 0..Depth /\ pos \in 0..2 /\ done = FALSE
Here == SubSeq(Others, 1, pos) \o <<All[kind]>> \o SubSeq(Others, pos + 1, 2)
(* in `n` groups *)
RECURSIVE In(_, _)
In(its, n) == IF n = 0 THEN its ELSE In(<<It("o", "x"), G("n" \o ToString(n), its)>>, n - 1)
Items == In(Here, at)
File(n, its) == [name |-> n, t |-> "f", items |-> its]
Sub(n, its) == [name |-> n, t |-> "d", items |-> its]
Tree == <<File("ok.yaml", <<It("one", "x + 1")>>), File("f.yaml", Items)>>
Low == <<File("top.json", <<It("one", "x")>>), Sub("d", <<Sub("e", Tree)>>)>>
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED <<kind, at, pos>>
        /\ PrintT("@C " \o ToJson([items |-> Items, tree |-> Tree, low |-> Low, kind |-> kind, good |-> kind \in DOMAIN Fine]))
Refused == LET bad == kind \in DOMAIN Wrong
               g == BuildGroup(Items, NoFl)
               d == BuildDir(Tree, NoFl)
               l == BuildDir(Low, NoFl)
           IN  (g.ok <=> ~bad) /\ (d.ok <=> ~bad) /\ (l.ok <=> ~bad)
Checked == done => Refused
=============================================================================
