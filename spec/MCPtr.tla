------------------------------- MODULE MCPtr -------------------------------
(* All configs of three files whose entries are numbers, expressions or      *)
(* pointers into the other files.  Checked here: following pointers one at a *)
(* time, the entry is found or the config is refused; a config with pointers *)
(* is the config with the entries written out.                               *)
EXTENDS NrwalSession, Json
CONSTANTS MainCells, BCells, CCells
VARIABLES m, b, c, done
NoFl == [ip |-> FALSE, np |-> FALSE, iy |-> FALSE, ny |-> FALSE]
Tree == <<[name |-> "lib.yaml", t |-> "f", items |-> <<[key |-> "one", t |-> "e", s |-> "x + 1", items |-> <<>>]>>]>>
(* main.yaml, b.json, s/c.yml *)
Rel(from, to) == CASE from = "m" /\ to = "b" -> "b.json"
                   [] from = "m" /\ to = "c" -> "./s/c.yml"
                   [] from = "b" /\ to = "c" -> "s/c.yml"
                   [] from = "c" /\ to = "b" -> "../b.json"
                   [] from = "b" /\ to = "m" -> "main.yaml"
                   [] OTHER -> "b.json"       (* s/b.json does not exist *)
Ent(file, k, cell) ==
  CASE cell[1] = "num" -> [key |-> k, t |-> "n", s |-> IF file = "m" THEN "2" ELSE IF file = "b" THEN "3" ELSE "5"]
    [] cell[1] = "txt" -> [key |-> k, t |-> "s", s |-> "lib::one * " \o (IF file = "b" THEN "7" ELSE "9")]
    [] cell[1] = "own" -> [key |-> k, t |-> "s", s |-> "k1 + 1"]
    [] OTHER -> [key |-> k, t |-> "s", s |-> Rel(file, cell[1]) \o "::" \o cell[2]]
File(f) == LET g == CASE f = "m" -> m [] f = "b" -> b [] f = "c" -> c IN <<Ent(f, "k1", g[1]), Ent(f, "k2", g[2])>>
Files == ("b.json" :> File("b")) @@ ("s/c.yml" :> File("c")) @@ ("main.yaml" :> File("m"))
Others == ("b.json" :> File("b")) @@ ("s/c.yml" :> File("c"))
MainQ == {<<"num", "">>, <<"own", "">>, <<"b", "k1">>, <<"b", "k2">>, <<"c", "k2">>}
BQ == {<<"txt", "">>, <<"c", "k1">>, <<"c", "k2">>}
CQ == {<<"num", "">>, <<"txt", "">>, <<"b", "k2">>}
MainT == {<<"num", "">>, <<"own", "">>, <<"txt", "">>, <<"b", "k1">>, <<"b", "k2">>, <<"c", "k1">>, <<"c", "k2">>, <<"b", "k3">>}
BT == {<<"num", "">>, <<"txt", "">>, <<"own", "">>, <<"c", "k1">>, <<"c", "k2">>, <<"c", "k3">>}
CT == {<<"num", "">>, <<"txt", "">>, <<"b", "k2">>, <<"c", "k1">>}
Init == m \in MainCells \X MainCells /\ b \in BCells \X BCells /\ c \in CCells \X CCells /\ done = FALSE
Main == File("m")
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED <<m, b, c>>
        /\ PrintT("@C " \o ToJson([ev |-> <<[op |-> "cfg_new", h |-> "c", tree |-> Tree, fl |-> NoFl, ents |-> Main,
                                             via |-> "yaml", main |-> "main.yaml", files |-> Others],
                                            [op |-> "cfg_eval", a |-> "c", how |-> "dict",
                                             inp |-> "x" :> [t |-> "q", v |-> <<4, 1>>]]>>]))
(* one pointer at a time, without the operators of NrwalConfig *)
Cell(f, k) == LET g == CASE f = "m" -> m [] f = "b" -> b [] f = "c" -> c IN IF k = "k1" THEN g[1] ELSE g[2]
IsPtr(cell) == cell[1] \notin {"num", "txt", "own"}
Exists(f, to) == to \in {"b", "c", "m"} /\ <<f, to>> \in {<<"m", "b">>, <<"m", "c">>, <<"b", "c">>, <<"c", "b">>, <<"b", "m">>}
(* the files that get read *)
Uses(f) == {Cell(f, k)[1] : k \in {j \in {"k1", "k2"} : IsPtr(Cell(f, j))}}
RECURSIVE Reach(_)
Reach(S) == LET T == S \cup UNION {{t \in Uses(f) : Exists(f, t)} : f \in S} IN IF T = S THEN S ELSE Reach(T)
Opened == Reach({"m"})
Broken == \E f \in Opened : \E k \in {"k1", "k2"} : IsPtr(Cell(f, k)) /\ ~Exists(f, Cell(f, k)[1])
Circle == \E f \in Opened : \E g \in {t \in Uses(f) : Exists(f, t)} : f \in Reach({g})
NoKey == \E f \in Opened : \E k \in {"k1", "k2"} : IsPtr(Cell(f, k)) /\ Cell(f, k)[2] \notin {"k1", "k2"}
RECURSIVE End(_, _)
End(f, k) == IF IsPtr(Cell(f, k)) THEN End(Cell(f, k)[1], Cell(f, k)[2]) ELSE Ent(f, k, Cell(f, k))
D == Deref(Others, "main.yaml", Main, 6)
Refused == D.ok <=> ~(Broken \/ Circle \/ NoKey)
WrittenOut == D.ok => \A i \in 1..2 : D.o[i] = [End("m", <<"k1", "k2">>[i]) EXCEPT !.key = <<"k1", "k2">>[i]]
Checked == done => Refused /\ WrittenOut
=============================================================================
