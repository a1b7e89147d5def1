------------------------------ MODULE MCFlags ------------------------------
(* All lookup options as arguments and as entries of a config, for a library *)
(* with sizes and years at two levels.  Checked here: the option that holds  *)
(* is the config's if it has one, otherwise the argument, separately for     *)
(* each of the four; what that means for a size and a year that do not exist.*)
EXTENDS NrwalSession, Json
CONSTANTS Args, Opts
VARIABLES ar, op, done
F4 == {"ip", "np", "iy", "ny"}
Long == [ip |-> "interp_extrap_power", np |-> "use_nearest_power", iy |-> "interp_extrap_year", ny |-> "use_nearest_year"]
It(k, s) == [key |-> k, t |-> "e", s |-> s, items |-> <<>>]
Its == <<It("c_2MW", "x * 2"), It("c_6MW", "x * 20"), It("c_10MW", "x * 30"),
         It("c_2010", "x * 5"), It("c_2020", "x * 9"), It("c_2030", "x * 7")>>
FileE == [name |-> "f.yaml", t |-> "f", items |-> Its \o <<[key |-> "g", t |-> "g", s |-> "", items |-> Its]>>]
Tree == <<FileE, [name |-> "d", t |-> "d", items |-> <<FileE>>]>>
Bool3 == {"-", "T", "F"}
OptE(f) == IF op[f] = "-" THEN <<>> ELSE <<[key |-> Long[f], t |-> "f", s |-> "", b |-> op[f] = "T"]>>
OptEnts == OptE("ip") \o OptE("np") \o OptE("iy") \o OptE("ny")
(* a third of the way, so that there is a nearest one *)
Ask(pre) == <<pre \o "f::c_7MW", pre \o "f::c_2017", pre \o "f::g::c_3MW", pre \o "f::g::c_2039">>
Asks == Ask("") \o Ask("d::")
Hit(f) == IF op[f] = "-" THEN ar[f] ELSE op[f] = "T"
FlArg == [f \in F4 |-> ar[f]]
FlCfg == CfgFlags(OptEnts, FlArg)
Bd(fl) == BuildDir(Tree, fl).o
Power(fl) == fl.ip \/ fl.np
(* the requests for sizes and those for years, in a config each *)
Half(h) == SelectSeq([i \in 1..Len(Asks) |-> i], LAMBDA i : i % 2 = h)
Ents(h) == OptEnts \o [j \in 1..Len(Half(h)) |-> [key |-> "k" \o ToString(j), t |-> "s", s |-> Asks[Half(h)[j]]]]
Q(n) == [t |-> "q", v |-> <<n, 1>>]
NoFl == [ip |-> FALSE, np |-> FALSE, iy |-> FALSE, ny |-> FALSE]
Use(h, n) == <<[op |-> "cfg_new", h |-> h, tree |-> Tree, fl |-> FlArg, ents |-> Ents(n), via |-> "dict"],
               [op |-> "cfg_eval", a |-> h, how |-> "dict", inp |-> "x" :> Q(3)]>>
Init == ar \in Args /\ op \in Opts /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED <<ar, op>>
        /\ PrintT("@C " \o ToJson([ev |-> Use("c", 1) \o Use("y", 0)]))
Val(key) == LET S == Get(Bd(FlCfg), key) IN IF S = {} THEN {} ELSE {EqEval(o, "x" :> Q(3)).v : o \in S}
Each == \A f \in F4 : FlCfg[f] = Hit(f)
Means(pre) ==
  /\ Val(pre \o "f::c_7MW") = (IF Hit("ip") THEN {Mk(135, 2)} ELSE IF Hit("np") THEN {<<60, 1>>} ELSE {})
  /\ Val(pre \o "f::c_2017") = (IF Hit("iy") THEN {Mk(39 * 3, 5)} ELSE IF Hit("ny") THEN {<<27, 1>>} ELSE {})
  /\ Val(pre \o "f::g::c_3MW") = (IF Hit("ip") THEN {Mk(39, 2)} ELSE IF Hit("np") THEN {<<6, 1>>} ELSE {})
  /\ Val(pre \o "f::g::c_2039") = (IF Hit("iy") THEN {Mk(26 * 3, 5) } ELSE IF Hit("ny") THEN {<<21, 1>>} ELSE {})
Checked == done => Each /\ Means("") /\ Means("d::")
ArgsQ == {NoFl, [NoFl EXCEPT !.ip = TRUE], [NoFl EXCEPT !.np = TRUE, !.ny = TRUE], [NoFl EXCEPT !.iy = TRUE], [f \in F4 |-> TRUE]}
ArgsT == [F4 -> BOOLEAN]
OptsT == [F4 -> Bool3]
=============================================================================
