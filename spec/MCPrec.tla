------------------------------- MODULE MCPrec -------------------------------
(* One name with every combination of sources: an entry of the config with   *)
(* this name (none, number, constant expression, computed), an input, and    *)
(* variables files in the root and in the directory of the equation; used in *)
(* library equations, config arithmetic and numpy calls.                     *)
(* Checked here: the precedence of C09 written as a table.                   *)
EXTENDS NrwalSession, Json
VARIABLES ent, inp, rootv, subv, fileuse, done
NoFl == [ip |-> FALSE, np |-> FALSE, iy |-> FALSE, ny |-> FALSE]
It(k, s) == [key |-> k, t |-> "e", s |-> s, items |-> <<>>]
Nu(k, s) == [key |-> k, t |-> "n", s |-> s, items |-> <<>>]
VarF(b, v) == IF b THEN <<[name |-> "variables.yaml", t |-> "f", items |-> <<Nu("p", v)>>]>> ELSE <<>>
FileE == [name |-> "f.yaml", t |-> "f", items |-> <<It("eq", "p * 3 + y"), It("two", "eq - p")>>]
Tree == VarF(rootv, "11") \o <<FileE, [name |-> "d", t |-> "d", items |-> VarF(subv, "13") \o <<FileE>>]>>
Path == IF fileuse = "sub" THEN "d::f" ELSE "f"
EntP == CASE ent = "none" -> <<>>
          [] ent = "num" -> <<[key |-> "p", t |-> "n", s |-> "17"]>>
          [] ent = "numtext" -> <<[key |-> "p", t |-> "s", s |-> "17.0"]>>
          [] ent = "cexpr" -> <<[key |-> "p", t |-> "s", s |-> "2 * 9"]>>
          [] ent = "comp" -> <<[key |-> "p", t |-> "s", s |-> "y * 2"]>>
          [] ent = "lib" -> <<[key |-> "p", t |-> "s", s |-> Path \o "::eq"]>>
S(k, s) == [key |-> k, t |-> "s", s |-> s]
Ents == <<S("u1", Path \o "::eq"), S("u2", Path \o "::two"), S("u3", Path), S("u4", "u3::eq"),
          S("u5", Path \o "::eq * 2")>> \o EntP
        \o <<S("u6", "p + 1"), S("u7", "np.abs(p)"), S("u8", Path \o "::eq - p")>>
Q(n) == [t |-> "q", v |-> <<n, 1>>]
Inp == (IF inp THEN "p" :> Q(19) ELSE NoDefs) @@ ("y" :> Q(5))
Ev0(i) == [op |-> "cfg_eval", a |-> "c", how |-> "dict", inp |-> i]
Init == /\ ent \in {"none", "num", "numtext", "cexpr", "comp", "lib"}
        /\ inp \in BOOLEAN /\ rootv \in BOOLEAN /\ subv \in BOOLEAN /\ fileuse \in {"root", "sub"} /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED <<ent, inp, rootv, subv, fileuse>>
        /\ PrintT("@C " \o ToJson([ev |-> <<[op |-> "cfg_new", h |-> "c", tree |-> Tree, fl |-> NoFl, ents |-> Ents,
                                             via |-> "dict"], Ev0(Inp), Ev0(NoDefs)>>, ents |-> Ents, tree |-> Tree,
                                   inp |-> Inp]))
B == BuildConfig(Ents, BuildDir(Tree, NoFl).o)
C == [B.o EXCEPT !.inp = Inp]
Deflt == IF fileuse = "sub" /\ subv THEN 13 ELSE IF rootv THEN 11 ELSE 0
(* the value of p inside of library equations, 0: there is none *)
P == CASE ent = "comp" -> 10
       [] ent = "lib" -> (IF inp THEN 19 * 3 + 5 ELSE IF Deflt # 0 THEN Deflt * 3 + 5 ELSE 0)
       [] inp -> 19
       [] ent \in {"num", "numtext"} -> 17
       [] ent = "cexpr" -> 18
       [] OTHER -> Deflt
Table == /\ B.ok
         /\ Required(B.o) = {"y"} \cup
              (IF ent = "none" THEN {"p"} ELSE IF ent = "lib" /\ Deflt = 0 THEN {"p"} ELSE {})
         /\ (P # 0 /\ Solvable(C)) =>
              LET o == AllOutputs(C) IN
              /\ o["u1"] = VQ(<<P * 3 + 5, 1>>)
              /\ o["u2"] = VQ(<<P * 2 + 5, 1>>)
              /\ o["u4"] = o["u1"]
              /\ o["u5"] = VQ(<<P * 6 + 10, 1>>)
         (* arithmetic in the config uses numbers of the config as they are   *)
         (* written there: the known finding on overwriting constants         *)
         /\ (P # 0 /\ Solvable(C) /\ ~(inp /\ ent \in {"num", "numtext", "cexpr"})) =>
              LET o == AllOutputs(C) IN o["u6"] = VQ(<<P + 1, 1>>) /\ o["u7"] = VQ(<<P, 1>>)
(* all of them, once per case (in the second state, where TLC is parallel) *)
Checked == done => Table
=============================================================================
