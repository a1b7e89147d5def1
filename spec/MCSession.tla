----------------------------- MODULE MCSession -----------------------------
(* NRWAL sessions: all sequences of Depth calls from a menu, on given first  *)
(* objects.  Canon is the specification read the other way round: the        *)
(* observation that a call has to give.  Checked here: Step accepts it in    *)
(* every reachable state (no call without an allowed outcome), plus the      *)
(* properties of each session below.  Every sequence is given to the code.   *)
EXTENDS NrwalSession, Json, SequencesExt
CONSTANTS Depth, Which
VARIABLES objs, hist, bad, ghost
vars == <<objs, hist, bad, ghost>>
NoFl == [ip |-> FALSE, np |-> FALSE, iy |-> FALSE, ny |-> FALSE]

(* ------------------------------------------------ canonical outcomes ---- *)
Err(m) == [t |-> "err", mro |-> <<m>>]
Done == [t |-> "ok"]
ObsVal(v) == CASE v.t = "q" -> [t |-> "q", v |-> v.v, ap |-> Scaled(v.v), sc |-> <<0, 0>>, np |-> FALSE]
               [] v.t = "a" -> [t |-> "a", ap |-> [i \in 1..Len(v.v) |-> Scaled(v.v[i])],
                                sc |-> [i \in 1..Len(v.v) |-> <<0, 0>>]]
               [] OTHER -> Err("RuntimeError")
ObsDefs(d) == [x \in DOMAIN d |-> ObsVal(d[x])]
Canon(o, ev) ==
  CASE ev.op = "cfg_eval" ->
         IF BadInputs(ev.inp, ev.how) THEN Err("TypeError")
         ELSE LET c == [o[ev.a] EXCEPT !.inp = InVals(ev.inp, ev.how) @@ @]
              IN  IF ~Solvable(c) \/ Cyclic(DepEdges(c)) THEN Err("RuntimeError")
                  ELSE LET vals == AllOutputs(c) IN
                       IF \E key \in DOMAIN vals : vals[key].t = "e" THEN Err("RuntimeError")
                       ELSE [t |-> "outs", outs |-> ObsDefs(vals)]
    [] ev.op = "cfg_in" -> IF ~Opt(ev, "clear", FALSE) /\ BadInputs(ev.inp, ev.how) THEN Err("TypeError") ELSE Done
    [] ev.op = "eq_eval" -> ObsVal(EqEval(o[ev.a], ev.kw))
    [] OTHER -> Done

Q(n) == [t |-> "q", v |-> <<n, 1>>]
In1(x, n) == x :> Q(n)

(* ------------------------------------------- session 1: a config's life - *)
It(k, s) == [key |-> k, t |-> "e", s |-> s, items |-> <<>>]
Nu(k, s) == [key |-> k, t |-> "n", s |-> s, items |-> <<>>]
Tree == <<[name |-> "f.yaml", t |-> "f", items |-> <<It("eq", "z - x"), It("p1", "ka + x"), It("p2", "kb * 2")>>],
          [name |-> "variables.yaml", t |-> "f", items |-> <<Nu("z", "4")>>]>>
Ents == CASE Which = "life" ->
               <<[key |-> "kb", t |-> "s", s |-> "ka - c0"], [key |-> "c0", t |-> "n", s |-> "5"],
                 [key |-> "ka", t |-> "s", s |-> "x * 2 + y"], [key |-> "kc", t |-> "s", s |-> "f::eq"],
                 [key |-> "ce", t |-> "s", s |-> "c0 * 3"], [key |-> "fg", t |-> "s", s |-> "f"]>>
          [] Which = "own" ->
               (* entries that read names of entries only through the library, *)
               (* and their own name, which is then an input                   *)
               <<[key |-> "kb", t |-> "s", s |-> "f::p1"], [key |-> "x", t |-> "s", s |-> "f::eq"],
                 [key |-> "w", t |-> "s", s |-> "x + y"]>>
          [] OTHER ->
               (* a circle through the library *)
               <<[key |-> "kb", t |-> "s", s |-> "f::p1"], [key |-> "ka", t |-> "s", s |-> "f::p2"],
                 [key |-> "ok", t |-> "s", s |-> "x - y"]>>
NewCfg == [op |-> "cfg_new", h |-> "c", tree |-> Tree, fl |-> NoFl, ents |-> Ents, via |-> "dict"]
Cfg0 == BuildConfig(Ents, BuildDir(Tree, NoFl).o).o
Ev1(inp) == [op |-> "cfg_eval", a |-> "c", how |-> "dict", inp |-> inp]
InE(inp) == [op |-> "cfg_in", a |-> "c", how |-> "dict", inp |-> inp]
LifeMenu == {Ev1(NoDefs),
             Ev1(In1("x", 3) @@ In1("y", 5)),
             Ev1(In1("y", 7)),
             Ev1(In1("z", 9)),
             Ev1(In1("ka", 50)),
             InE(In1("x", 1) @@ In1("y", 2)),
             InE("x" :> [t |-> "a", v |-> <<<<1, 1>>, <<4, 1>>>>]),
             InE(In1("y", 8) @@ ("x" :> [t |-> "none"])),
             [op |-> "cfg_in", a |-> "c", how |-> "dict", clear |-> TRUE, inp |-> NoDefs],
             [op |-> "cfg_reset", a |-> "c", key |-> ""],
             [op |-> "cfg_reset", a |-> "c", key |-> "kb"]}
LifeInit == objs = [h \in {"c"} |-> Cfg0] /\ hist = <<NewCfg>>

(* history variable: the inputs in force, and the inputs of the evaluation   *)
(* that the outputs come from, derived from the calls alone                  *)
IsLife == Which \in {"life", "own", "circle"}
LifeGhost(g, ev, obs) ==
  LET refused == IsErr(obs) /\ (\E x \in DOMAIN ev.inp : ev.inp[x].t = "none")
      now == IF ev.op = "cfg_reset" \/ refused THEN g.now
             ELSE IF Opt(ev, "clear", FALSE) THEN NoDefs
             ELSE ev.inp @@ g.now
  IN  [now |-> now,
       was |-> IF ev.op = "cfg_eval" /\ ~IsErr(obs) THEN now
               ELSE IF ev.op = "cfg_eval" /\ ~refused /\ {"x", "y"} \subseteq DOMAIN now THEN now ELSE g.was]
(* what the life menu's entries mean, written by hand for the inputs x, y, z *)
InForce == IsLife => objs["c"].inp = ghost.now
ReqConstant == IsLife => Required(objs["c"]) = Required(Cfg0)
ReqIs == CASE Which = "life" -> Required(Cfg0) = {"x", "y"}
           [] Which = "own" -> Required(Cfg0) = {"x", "y", "ka"}
           [] Which = "circle" -> Required(Cfg0) = {"x", "y"}
           [] OTHER -> TRUE
NotStale == IsLife /\ objs["c"].outok = "yes" /\ objs["c"].out # NoDefs =>
              \A key \in DOMAIN objs["c"].out :
                 objs["c"].out[key] = AllOutputs([Cfg0 EXCEPT !.inp = ghost.was])[key]
NeverComputed == Which = "circle" => DOMAIN objs["c"].out \subseteq {"ok"}

(* --------------------------------- session 2: equations share nothing ---- *)
EqNew(h, s, d) == [op |-> "eq_new", h |-> h, s |-> s, defs |-> d, name |-> "", num |-> FALSE]
ShareInit == /\ objs = [h \in {"e1", "e2"} |-> IF h = "e1" THEN EqText("x - y", In1("y", 2)) ELSE EqText("y * z", NoDefs)]
             /\ hist = <<EqNew("e1", "x - y", In1("y", 2)), EqNew("e2", "y * z", NoDefs)>>
New == "r" \o ToString(Len(hist))
ShareMenu == {[op |-> "eq_op", h |-> New, a |-> a, b |-> b, bt |-> "h", o |-> o] :
                 a \in DOMAIN objs, b \in DOMAIN objs, o \in {"-"}}
        \cup {[op |-> "eq_op", h |-> New, a |-> a, b |-> "3", bt |-> "s", o |-> "*"] : a \in DOMAIN objs}
        \cup {[op |-> "eq_def", a |-> a, defs |-> In1("y", 10 + Len(hist))] : a \in DOMAIN objs}
        \cup {[op |-> "eq_repl", h |-> New, a |-> a, s |-> "y + x", name |-> ""] : a \in DOMAIN objs}
        \cup {[op |-> "copy", h |-> New, a |-> a, how |-> "deep"] : a \in DOMAIN objs}
        \cup {[op |-> "eq_eval", a |-> a, kw |-> In1("x", 7) @@ In1("z", 3)] : a \in DOMAIN objs}
(* only the object that is named changes, and only its defaults *)
FrameOf(ev) == \A h \in DOMAIN objs : h \in DOMAIN objs' /\
                 IF h \in Mutated(ev) THEN objs'[h].ast = objs[h].ast ELSE objs'[h] = objs[h]

(* ------------------------------------ session 3: groups share nothing ---- *)
GItems(k) == IF k = "g1" THEN <<It("a", "x - y"), [key |-> "s", t |-> "g", s |-> "", items |-> <<It("b", "y * 2")>>]>>
             ELSE <<It("a", "x * y"), It("d", "y + 1")>>
GInit == /\ objs = [h \in {"g1", "g2"} |-> BuildGroup(GItems(h), NoFl).o]
         /\ hist = [i \in 1..2 |-> [op |-> "grp_new", h |-> <<"g1", "g2">>[i], items |-> GItems(<<"g1", "g2">>[i]),
                                    fl |-> NoFl, via |-> "dict"]]
Groups == {h \in DOMAIN objs : objs[h].k = "grp"}
GMenu == {[op |-> "add", h |-> New, a |-> a, b |-> b, bt |-> "h"] : a \in Groups, b \in Groups}
    \cup {[op |-> "grp_def", a |-> a, defs |-> In1("y", 10 + Len(hist))] : a \in Groups}
    \cup {[op |-> "grp_def", a |-> a, defs |-> In1("x", 20 + Len(hist))] : a \in {"g1"}}
    \cup {[op |-> "copy", h |-> New, a |-> a, how |-> "deep"] : a \in Groups}
    \cup {[op |-> "get", h |-> New, a |-> a, key |-> k, dflt |-> FALSE, probes |-> <<>>] :
            a \in Groups, k \in {"a + a * 2"}}
GCanon(o, ev) == CASE ev.op = "add" -> LET r == GrpAdd(o[ev.a], o[ev.b]) IN
                                       [t |-> "grp", keys |-> KeySeq(r), defs |-> ObsDefs(r.defs), n |-> CountEq(r)]
                   [] ev.op = "get" -> LET e == Pick(Get(o[ev.a], ev.key)) IN
                                       [t |-> "eq", vars |-> SetToSeq(EqNames(e)), sorted |-> TRUE,
                                        defs |-> ObsDefs(e.defs), vals |-> <<>>]
                   [] OTHER -> Done

(* ---------------------------------------------------------- the model --- *)
Menu == CASE IsLife -> LifeMenu [] Which = "share" -> ShareMenu [] Which = "groups" -> GMenu
First0 == IF IsLife THEN 1 ELSE 2
Init == /\ CASE IsLife -> LifeInit [] Which = "share" -> ShareInit [] Which = "groups" -> GInit
        /\ bad = {}
        /\ ghost = [now |-> NoDefs, was |-> NoDefs]
Next == /\ Len(hist) < First0 + Depth
        /\ \E ev \in Menu :
             LET obs == IF Which = "groups" THEN GCanon(objs, ev) ELSE Canon(objs, ev)
                 r == Step(objs, ev @@ [obs |-> obs])
             IN  /\ objs' = r.objs
                 /\ bad' = r.bad
                 /\ hist' = Append(hist, ev)
                 /\ ghost' = IF IsLife THEN LifeGhost(ghost, ev @@ [inp |-> NoDefs], obs) ELSE ghost
                 /\ (Len(hist') = First0 + Depth => PrintT("@C " \o ToJson([ev |-> hist'])))
Spec == Init /\ [][Next]_vars
Accepts == bad = {}
Frame == [][FrameOf(hist'[Len(hist')])]_vars
=============================================================================
