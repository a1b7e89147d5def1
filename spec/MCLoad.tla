------------------------------- MODULE MCLoad -------------------------------
(* All directories with up to Max entries of the kinds below.  Checked here: *)
(* what is loaded, what is left out and what is refused, as a table.         *)
EXTENDS NrwalSession, Json, SequencesExt, FiniteSetsExt
CONSTANTS Entries
VARIABLES kinds, done
NoFl == [ip |-> FALSE, np |-> FALSE, iy |-> FALSE, ny |-> FALSE]
It(k, s) == [key |-> k, t |-> "e", s |-> s, items |-> <<>>]
Nu(k, s) == [key |-> k, t |-> "n", s |-> s, items |-> <<>>]
F(n, its) == [name |-> n, t |-> "f", items |-> its]
X(n) == [name |-> n, t |-> "x", items |-> <<>>]
D(n, its) == [name |-> n, t |-> "d", items |-> its]
E1 == <<It("e", "x + y")>>
Kinds == [yaml |-> F("a.yaml", E1), yml |-> F("b.yml", E1), json |-> F("c.json", E1), dots |-> F("v1.2.yaml", E1),
          txt |-> F("notes.txt", E1), py |-> F("code.py", E1), bak |-> F("old.yaml.bak", E1), hidf |-> F(".h.yaml", E1),
          undf |-> F("__u.yaml", E1), und1 |-> F("_one.yaml", E1), empty |-> D("d0", <<>>), junk |-> D("d1", <<F("r.txt", E1)>>),
          dir |-> D("d2", <<F("a.yaml", E1)>>), deep |-> D("d3", <<D("d4", <<F("a.json", E1)>>)>>),
          deepj |-> D("d5", <<D("d6", <<F("n.md", E1)>>)>>), hidd |-> D(".git", <<F("a.yaml", E1)>>),
          pyc |-> D("__pycache__", <<F("a.yaml", E1)>>), vars |-> F("variables.yaml", <<Nu("y", "4")>>),
          broke |-> X("bad.yaml"), ill |-> F("ill.yaml", <<It("e", "x + 1"), It("w", "eval(x)")>>),
          dbroke |-> D("d7", <<X("bad.json")>>), hidb |-> X(".bad.yaml"), txtb |-> X("bad.txt"),
          badv |-> F("variables.yml", <<It("y", "z + 1")>>), eg |-> F("emptyfile.yaml", <<>>)]
Loads == [yaml |-> "a", yml |-> "b", json |-> "c", dots |-> "v1.2", und1 |-> "_one", dir |-> "d2", deep |-> "d3",
          vars |-> "variables", eg |-> "emptyfile"]
Refuses == {"broke", "ill", "dbroke", "badv"}
Init == kinds \in kSubset(Entries, DOMAIN Kinds) /\ ~({"vars", "badv"} \subseteq kinds) /\ done = FALSE
KS == SetToSeq(kinds)
Tree == [i \in 1..Len(KS) |-> Kinds[KS[i]]]
B == BuildDir(Tree, NoFl)
Gets == <<"a::e", "b::e", "c::e", "v1.2.yaml::e", "d2::a::e", "d3::d4::a::e", "a.yaml::e", "d1", "notes", "_one::e">>
Q(n) == [t |-> "q", v |-> <<n, 1>>]
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED kinds
        /\ PrintT("@C " \o ToJson([ev |-> <<[op |-> "dir_new", h |-> "o", tree |-> Tree, fl |-> NoFl],
                                            [op |-> "parts", a |-> "o"]>>
              \o [i \in 1..Len(Gets) |-> [op |-> "get", a |-> "o", key |-> Gets[i], dflt |-> TRUE,
                                          probes |-> <<"x" :> Q(7)>>]]]))
Table == /\ B.ok <=> kinds \cap Refuses = {}
         /\ B.ok => Keys(B.o) = {Loads[k] : k \in kinds \cap DOMAIN Loads}
         /\ B.ok /\ "deep" \in kinds => Pick(Get(B.o, "d3::d4::a::e")).defs = (IF "vars" \in kinds THEN "y" :> Q(4) ELSE NoDefs)
Checked == done => Table
=============================================================================
