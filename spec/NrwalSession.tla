--------------------------- MODULE NrwalSession ---------------------------
(* NRWAL as a state machine.  The state is the set of live objects of a     *)
(* user session (equations, groups, directories, configs) and the actions   *)
(* are the calls of the public API.  Step(objs, ev) gives, for a call ev    *)
(* with its observation, the next objects and the set of clauses of the     *)
(* specification that the observation violates (empty: allowed behaviour).  *)
EXTENDS NrwalConfig

ToSet(s) == {s[i] : i \in 1..Len(s)}
R(objs, bad) == [objs |-> objs, bad |-> bad]
Cl(ok, name) == IF ok THEN {} ELSE {name}

(* ------------------------------------------------- matching values ------ *)
Raised(obs, E) == /\ obs.t = "err"
                  /\ \E x \in E : x = "any" \/ x \in ToSet(obs.mro)
                  (* neither running forever nor until python gives up *)
                  /\ ToSet(obs.mro) \cap {"Timeout", "RecursionError", "MemoryError"} = {}
IsErr(obs) == obs.t = "err"

(* Numbers are compared exactly.  Arrays are 32 bit floats in NRWAL, they    *)
(* (and what numpy makes of them) are compared in multiples of 1/30000 with  *)
(* a tolerance for rounding.                                                 *)
Scaled(q) == (q[1] \div q[2]) * 30000 + ((q[1] % q[2]) * 30000) \div q[2]
Near(q, ap) == LET s == Scaled(q) IN Abs(s - ap) <= 100 + Abs(s) \div 2000
(* (a part of) the value is not determined, e.g. a division by zero, which   *)
(* python may also refuse                                                    *)
IsUnk(v) == v.t = "u" \/ (v.t = "a" /\ \E i \in 1..Len(v.v) : Unk(v.v[i]))
NearAt(q, ap, sc) == IF Unk(q) THEN TRUE
                     ELSE IF Exact(q) /\ ~Wide(q) THEN Near(q, ap)
                     ELSE LET a == ToA(q) IN Unk(a) \/ InApx(a, sc, ap, TRUE)
MatchVal(exp, obs) ==
  CASE exp.t = "u" -> ~(IsErr(obs) /\ "Timeout" \in ToSet(obs.mro))
    [] exp.t = "e" -> Raised(obs, {"RuntimeError"})
    [] exp.t = "q" /\ Apx(exp.v) -> obs.t \in {"q", "nr"} /\ InApx(exp.v, obs.sc, obs.ap, obs.np)
    [] exp.t = "q" /\ Wide(exp.v) ->
         /\ obs.t \in {"q", "nr"}
         /\ \/ InWide(exp.v, obs.hp)
            \/ obs.np /\ NearAt(exp.v, obs.ap, obs.sc)
    [] exp.t = "q" -> \/ obs.t = "q" /\ obs.v = exp.v
                      \/ obs.t \in {"q", "nr"} /\ obs.np /\ Near(exp.v, obs.ap)
    [] exp.t = "a" /\ IsErr(obs) -> IsUnk(exp) /\ Raised(obs, {"RuntimeError"})
    [] exp.t = "a" -> /\ obs.t = "a"
                      /\ Len(obs.ap) = Len(exp.v)
                      /\ \A i \in 1..Len(exp.v) : NearAt(exp.v[i], obs.ap[i], obs.sc[i])
    [] OTHER -> FALSE

MatchDefs(exp, obs) == /\ DOMAIN exp = DOMAIN obs
                       /\ \A x \in DOMAIN exp : MatchVal(exp[x], obs[x])

(* the projection that `look` in the driver makes of an object *)
RECURSIVE CountEq(_)
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE s[1] + SumSeq(Tail(s))
CountEq(o) == CASE o.k = "eq" -> 1
                [] o.k \in {"grp", "dir"} -> SumSeq([i \in 1..Len(o.items) |-> CountEq(o.items[i].o)])
                [] OTHER -> 0

BadObj(o, obs, probes) ==
  IF IsErr(obs) THEN {"unexpected-error"}
  ELSE CASE o.k = "eq" ->
      IF obs.t # "eq" THEN {"kind"}
      ELSE Cl(ToSet(obs.vars) = EqNames(o) /\ obs.sorted, "variables")
           \cup Cl(MatchDefs(o.defs, obs.defs), "defaults")
           \cup Cl(Len(obs.vals) = Len(probes) /\ \A i \in 1..Len(probes) :
                     MatchVal(EqEval(o, probes[i]), obs.vals[i]), "value")
    [] o.k = "vars" -> IF obs.t # "vars" THEN {"kind"}
                       ELSE Cl(MatchDefs(VarDict(o), obs.defs), "variables-file")
    [] o.k \in {"grp", "dir"} ->
      IF obs.t # o.k THEN {"kind"}
      ELSE Cl(ToSet(obs.keys) = Keys(o) /\ Len(obs.keys) = Len(o.items), "keys")
           \cup Cl(MatchDefs(o.defs, obs.defs), "defaults")
           \cup Cl(obs.n = CountEq(o), "all-equations")
    [] o.k = "q" -> Cl(MatchVal(VQ(o.q), obs), "value")
    [] OTHER -> {"kind"}

(* any of the acceptable objects; {} means KeyError *)
BadGet(S, obs, probes, dflt) ==
  IF S = {} THEN (IF dflt THEN Cl(obs.t = "default", "get-default")
                  ELSE Cl(Raised(obs, {"KeyError"}), "key-error"))
  ELSE IF \E o \in S : BadObj(o, obs, probes) = {} THEN {}
  ELSE BadObj(Pick(S), obs, probes)

(* ------------------------------------------------------- equations ------ *)
Put(objs, h, o) == (h :> o) @@ objs

(* constructing from text: illegal content and self references are refused  *)
EqNewErr(text, name) ==
  \/ IsIllegal(text)
  \/ (name # "" /\ ~IsNumText(text) /\ name \in Names(Parse(text)))

Ctor(objs, h, o, mustfail, errs, obs) ==
  IF mustfail THEN R(objs, Cl(Raised(obs, errs), "must-be-rejected"))
  ELSE IF IsErr(obs) THEN R(Put(objs, h, o), {"unexpected-error"})
  ELSE R(Put(objs, h, o), {})

Opt(ev, f, d) == IF f \in DOMAIN ev THEN ev[f] ELSE d
DoEqNew(objs, ev) == Ctor(objs, ev.h, EqText(ev.s, ev.defs), EqNewErr(ev.s, ev.name),
                          {"ValueError"}, ev.obs)
DoEqRepl(objs, ev) == Ctor(objs, ev.h, EqText(ev.s, objs[ev.a].defs), EqNewErr(ev.s, ev.name),
                          {"ValueError"}, ev.obs)
DoEqOp(objs, ev) ==
  LET ill == ev.bt = "s" /\ IsIllegal(ev.b)
      b == IF ev.bt = "h" THEN objs[ev.b] ELSE EqText(ev.b, NoDefs)
  IN  Ctor(objs, ev.h, EqOp(IF ev.o = "**" THEN "^" ELSE ev.o, objs[ev.a], b), ill, {"ValueError"}, ev.obs)
DoEqDef(objs, ev) == R([objs EXCEPT ![ev.a] = EqSetDefs(@, ev.defs)], Cl(~IsErr(ev.obs), "unexpected-error"))
DoGrpDef(objs, ev) == R([objs EXCEPT ![ev.a] = IF @.k = "dir" THEN DirSetDefs(@, ev.defs, Opt(ev, "force", FALSE))
                                               ELSE GrpSetDefs(@, ev.defs)],
                        Cl(~IsErr(ev.obs), "unexpected-error"))
(* the defaults of something inside an object are changed through the live   *)
(* object that retrieval returns.  What that means for the object itself is  *)
(* not specified, it is left out from here on; no other object may change.   *)
DoSubDef(objs, ev) == R([h \in DOMAIN objs \ {ev.a} |-> objs[h]], {})
DoEqEval(objs, ev) == R(objs, Cl(MatchVal(EqEval(objs[ev.a], ev.kw), ev.obs),
                          IF EqMissing(objs[ev.a], ev.kw) # {} THEN "missing-input" ELSE "value"))
DoLook(objs, ev) == R(objs, BadObj(objs[ev.a], ev.obs, ev.probes))

(* ----------------------------------------------- groups, directories ---- *)
Built(objs, h, r, obs) ==
  IF ~r.ok THEN R(objs, Cl(Raised(obs, r.errs), "must-be-rejected"))
  ELSE R(Put(objs, h, r.o), BadObj(r.o, obs, <<>>))
DoGrpNew(objs, ev) == Built(objs, ev.h, BuildGroup(ev.items, ev.fl), ev.obs)
DoVarNew(objs, ev) == Built(objs, ev.h, BuildVars(ev.items), ev.obs)
DoDirNew(objs, ev) == Built(objs, ev.h, BuildDir(ev.tree, ev.fl), ev.obs)

DoGet(objs, ev) ==
  (* such math is refused, whether or not there is a default *)
  IF objs[ev.a].k \in {"grp", "dir"} /\ HasOp(ev.key) /\ Bracket(ev.key)
  THEN R(objs, Cl(Raised(ev.obs, {"ValueError"}), "must-be-rejected")) ELSE
  LET S == Get(objs[ev.a], ev.key)
      bad == BadGet(S, ev.obs, ev.probes, ev.dflt)
  IN  R(IF "h" \in DOMAIN ev /\ S # {} THEN Put(objs, ev.h, Pick(S)) ELSE objs, bad)

DoAdd(objs, ev) ==
  LET a == objs[ev.a]
      b == CASE ev.bt = "h" -> OK(objs[ev.b])
             [] ev.bt = "tree" -> BuildDir(ev.tree, a.fl)
             [] OTHER -> BuildGroup(ev.items, a.fl)
  IN  IF ~b.ok THEN R(objs, Cl(IsErr(ev.obs), "must-be-rejected"))
      ELSE LET o == IF a.k = "dir" THEN DirAdd(a, b.o) ELSE GrpAdd(a, b.o)
           IN  R(Put(objs, ev.h, o), BadObj(o, ev.obs, <<>>))

DoCopy(objs, ev) == R(Put(objs, ev.h, objs[ev.a]), Cl(~IsErr(ev.obs), "unexpected-error"))

KindOf(o) == IF o.k = "q" THEN "val" ELSE o.k
DoParts(objs, ev) ==
  LET o == objs[ev.a]
      b == ev.obs
  IN  R(objs, IF b.t # "parts" THEN {"unexpected-error"} ELSE
        Cl(ToSet(b.keys) = Keys(o) /\ Len(b.keys) = Len(o.items), "keys")
        \cup Cl(o.k # "cfg" \/ b.keys = KeySeq(o), "key-order")
        \cup Cl(b.ikeys = b.keys, "items-keys")
        \cup Cl(b.same, "values-items")
        \cup Cl(b.contains /\ ~b.absent, "contains")
        \cup Cl(\A i \in 1..Len(b.keys) : b.keys[i] \in Keys(o) =>
                   b.kinds[i] = KindOf(Obj(o, b.keys[i])), "kinds")
        \cup Cl(b.eqs /\ (o.k \in {"cfg", "vars"} \/ b.n = CountEq(o)), "all-equations"))

FirstN(s, n) == SubSeq(s, 1, IF n < Len(s) THEN n ELSE Len(s))
LastN(s, n)  == SubSeq(s, IF n < Len(s) THEN Len(s) - n + 1 ELSE 1, Len(s))
(* The text form has a title line and then, indented by level, a line for   *)
(* everything inside: an equation with the names it reads (those with a      *)
(* default as name=value), a number, the name of a group, file or directory, *)
(* a variable with its value.                                                *)
RECURSIVE LineSet(_, _), LineCount(_)
LineSet(o, ind) ==
  IF o.k \notin {"grp", "dir", "vars", "cfg"} THEN {}
  ELSE UNION {LET x == o.items[i] IN
       CASE x.o.k = "eq" /\ o.k = "cfg" -> {[n |-> ind, t |-> "key", key |-> x.key],
                                            [n |-> ind + 1, t |-> "expr", o |-> x.o]}
         [] x.o.k = "eq" /\ x.o.num -> {[n |-> ind, t |-> "num", o |-> x.o]}
         [] x.o.k = "eq" -> {[n |-> ind, t |-> "eq", key |-> x.key, o |-> x.o]}
         [] x.o.k = "q" -> {[n |-> ind, t |-> "var", key |-> x.key, q |-> x.o.q]}
         [] o.k = "cfg" -> {[n |-> ind, t |-> "key", key |-> x.key],
                            [n |-> ind + 1, t |-> "title"]} \cup LineSet(x.o, ind + 1)
         [] OTHER -> {[n |-> ind, t |-> IF o.k = "dir" THEN "file" ELSE "key", key |-> x.key]}
                     \cup LineSet(x.o, ind + 1) : i \in 1..Len(o.items)}
LineCount(o) ==
  IF o.k \notin {"grp", "dir", "vars", "cfg"} THEN 1
  ELSE SumSeq([i \in 1..Len(o.items) |->
         IF o.items[i].o.k \in {"eq", "q"} THEN (IF o.k = "cfg" THEN 2 ELSE 1)
         ELSE (IF o.k = "cfg" THEN 2 ELSE 1) + LineCount(o.items[i].o)])

RECURSIVE TabsOf(_, _)
TabsOf(s, i) == IF i <= Len(s) /\ Ch(s, i) = "\t" THEN TabsOf(s, i + 1) ELSE i - 1
SameNum(text, q) == IF ~IsNumText(text) THEN FALSE
                    ELSE LET v == NumTextVal(text) IN ~Exact(v) \/ ~Exact(q) \/ v = q
(* arguments of an equation as they are listed *)
ArgsMatch(o, text) ==
  LET args == IF text = "" THEN <<>> ELSE Split(text, ", ")
      free == EqNames(o) \ DOMAIN o.defs
      kept == EqNames(o) \cap DOMAIN o.defs
      ok(x) == \/ x \in free
               \/ \E v \in kept : /\ StartsWith(x, v \o "=")
                                  /\ \/ o.defs[v].t # "q"
                                     \/ SameNum(SubSeq(x, Len(v) + 2, Len(x)), o.defs[v].v)
  IN  \/ \E v \in kept : o.defs[v].t = "a"
      \/ /\ Len(args) = Cardinality(EqNames(o))
         /\ Cardinality(ToSet(args)) = Len(args)
         /\ \A i \in 1..Len(args) : ok(args[i])
LineOK(x, s, n) ==
  x.n = n /\
  CASE x.t = "key" -> s = x.key
    [] x.t = "title" -> TRUE
    [] x.t = "file" -> s \in {x.key, x.key \o ".yaml", x.key \o ".yml", x.key \o ".json"}
    [] x.t = "var" -> StartsWith(s, x.key \o ": ") /\ SameNum(SubSeq(s, Len(x.key) + 3, Len(s)), x.q)
    [] x.t = "num" -> LET v == Ev(x.o.ast, NoDefs) IN v.t # "q" \/ SameNum(s, v.v)
    [] x.t = "expr" -> \A v \in EqNames(x.o) : Has(s, v)
    [] x.t = "eq" -> /\ StartsWith(s, x.key \o "(") /\ EndsWith(s, ")")
                     /\ ArgsMatch(x.o, SubSeq(s, Len(x.key) + 2, Len(s) - 1))
BadLines(o, full) ==
  LET want == TLCEval(LineSet(o, 0))
      at == TLCEval([i \in 2..Len(full) |-> TabsOf(full[i], 1)])
      tx == TLCEval([i \in 2..Len(full) |-> SubSeq(full[i], at[i] + 1, Len(full[i]))])
  IN  Cl(Len(full) = 1 + LineCount(o), "text-lines")
      \cup Cl(\A x \in want : \E i \in 2..Len(full) : LineOK(x, tx[i], at[i]), "text-lists-all")
      \cup Cl(\A i \in 2..Len(full) : \E x \in want : LineOK(x, tx[i], at[i]), "text-lists-only")

DoText(objs, ev) ==
  LET o == objs[ev.a]
      b == ev.obs
  IN  R(objs, IF b.t # "text" THEN {"unexpected-error"} ELSE
        Cl(b.repr = b.full, "repr")
        \cup Cl(b.head = FirstN(b.full, ev.n) /\ b.head5 = FirstN(b.full, 5), "head")
        \cup Cl(b.tail = LastN(b.full, ev.n) /\ b.tail5 = LastN(b.full, 5), "tail")
        \cup BadLines(o, b.full))

(* ---------------------------------------------------------- configs ----- *)
BadCfg(c, obs) ==
  IF obs.t # "cfg" THEN {"unexpected-error"} ELSE
     Cl(obs.keys = KeySeq(c), "config-keys")
  \cup Cl(Len(obs.kinds) = Len(c.items) /\
          \A i \in 1..Len(c.items) : obs.kinds[i] = c.items[i].o.k, "config-kinds")
  \cup Cl(ToSet(obs.req) = Required(c), "required-inputs")
  \cup Cl(ToSet(obs.miss) = Missing(c), "missing-inputs")
  \cup Cl(obs.sorted, "sorted")
  \cup Cl(obs.solvable = Solvable(c), "solvable")
  \cup Cl(ToSet(obs.allv) = AllVars(c), "all-variables")
  \cup Cl(MatchDefs(c.gl, obs.gl), "constants")
  \cup Cl(MatchDefs(c.inp, obs.inp), "inputs")
  \cup (IF c.outok = "yes"
        THEN Cl(MatchDefs(c.out, obs.outs), "outputs")
             \cup Cl(ToSet(obs.tbs) = ToBeSolved(c), "to-be-solved")
             \cup Cl(obs.solved = (ToBeSolved(c) = {}), "solved")
        ELSE Cl(DOMAIN obs.outs \subseteq DOMAIN c.out /\
                \A key \in DOMAIN obs.outs : MatchVal(c.out[key], obs.outs[key]),
                "outputs-after-failure"))

BadInputs(inp, how) == how \in {"bad", "badkey"} \/ \E x \in DOMAIN inp : inp[x].t \notin {"q", "a"}

(* a data frame has one row per entry, numbers are repeated *)
DfLen(inp) == IF \E x \in DOMAIN inp : inp[x].t = "a"
              THEN Len(inp[CHOOSE x \in DOMAIN inp : inp[x].t = "a"].v) ELSE 1
InVals(inp, how) == IF how = "df"
  THEN [x \in DOMAIN inp |-> IF inp[x].t = "a" THEN [t |-> "a", v |-> inp[x].v]
                             ELSE [t |-> "a", v |-> [i \in 1..DfLen(inp) |-> inp[x].v]]]
  ELSE [x \in DOMAIN inp |-> [t |-> inp[x].t, v |-> inp[x].v]]


CfgFlags(ents, fl) == [ip |-> FlagOf(ents, "interp_extrap_power", fl.ip),
                       np |-> FlagOf(ents, "use_nearest_power", fl.np),
                       iy |-> FlagOf(ents, "interp_extrap_year", fl.iy),
                       ny |-> FlagOf(ents, "use_nearest_year", fl.ny)]

DoCfgNew(objs, ev) ==
  LET files == Opt(ev, "files", <<>>)
      path == IF ev.via = "dict" THEN "" ELSE ev.main
      inp == Opt(ev, "inp", NoDefs)
      how == Opt(ev, "how", "dict")
      d == Deref(files, path, ev.ents, 6)
      dir == BuildDir(ev.tree, CfgFlags(ev.ents, ev.fl))
      r == IF BadInputs(inp, how) THEN Fail({"any"})
           ELSE IF ~d.ok THEN Fail({"any", "loop"})
           ELSE IF ~dir.ok THEN dir
           ELSE BuildConfig(d.o, dir.o)
  IN  IF ~r.ok THEN R(objs, Cl(Raised(ev.obs, r.errs)
                               (* files that refer to each other in a circle are read until python gives up *)
                               \/ ("loop" \in r.errs /\ IsErr(ev.obs) /\ "RecursionError" \in ToSet(ev.obs.mro)),
                               "must-be-rejected"))
      ELSE LET c == [r.o EXCEPT !.inp = InVals(inp, how)]
               (* a constant that is not determined here (x / 0) may be refused *)
               unk == \E x \in DOMAIN c.gl : IsUnk(c.gl[x])
           IN  IF unk /\ Raised(ev.obs, {"RuntimeError"}) THEN R(objs, {})
               ELSE R(Put(objs, ev.h, c), BadCfg(c, ev.obs))

DoCfgLook(objs, ev) == R(objs, BadCfg(objs[ev.a], ev.obs))

DoCfgIn(objs, ev) ==
  LET c == objs[ev.a]
      how == Opt(ev, "how", "dict")
  IN  IF Opt(ev, "clear", FALSE)
      THEN R([objs EXCEPT ![ev.a].inp = NoDefs], Cl(~IsErr(ev.obs), "unexpected-error"))
      ELSE IF BadInputs(ev.inp, how) THEN R(objs, Cl(IsErr(ev.obs), "bad-input-accepted"))
      ELSE R([objs EXCEPT ![ev.a].inp = InVals(ev.inp, how) @@ @], Cl(~IsErr(ev.obs), "unexpected-error"))

DoCfgSet1(objs, ev) == R([objs EXCEPT ![ev.a].inp = (ev.key :> [t |-> ev.v.t, v |-> ev.v.v]) @@ @],
                         Cl(~IsErr(ev.obs), "unexpected-error"))

DoCfgEval(objs, ev) ==
  LET how == Opt(ev, "how", "dict")
      inp == Opt(ev, "inp", NoDefs)
  IN  IF BadInputs(inp, how) THEN R(objs, Cl(IsErr(ev.obs), "bad-input-accepted"))
      ELSE LET c == [objs[ev.a] EXCEPT !.inp = InVals(inp, how) @@ @]
           IN  IF ~Solvable(c)       (* refused before anything is computed *)
               THEN R([objs EXCEPT ![ev.a] = c], Cl(Raised(ev.obs, {"RuntimeError"}), "evaluate-missing-input"))
               ELSE IF Cyclic(DepEdges(c))
               THEN R([objs EXCEPT ![ev.a] = [c EXCEPT !.outok = "any", !.out = PartOutputs(c)]],
                      Cl(Raised(ev.obs, {"RuntimeError"}), "evaluate-circular"))
               ELSE LET vals == AllOutputs(c)
                        fails == \E key \in DOMAIN vals : vals[key].t = "e"
                        unk == \E key \in DOMAIN vals : IsUnk(vals[key])
                    IN  IF IsErr(ev.obs)
                        THEN R([objs EXCEPT ![ev.a] = [c EXCEPT !.outok = "any", !.out = PartOutputs(c)]],
                               Cl((fails \/ unk) /\ Raised(ev.obs, {"RuntimeError"}), "unexpected-error"))
                        ELSE R([objs EXCEPT ![ev.a] = [c EXCEPT !.out = vals, !.outok = "yes"]],
                               Cl(~fails, "evaluate-must-fail")
                               \cup Cl(MatchDefs(vals, ev.obs.outs), "outputs"))

(* The documentation: constants of a config can be overwritten by inputs,    *)
(* wherever they are used.  NRWAL inlines them in arithmetic expressions.    *)
DoCfgDoc(objs, ev) ==
  LET dir == BuildDir(ev.tree, ev.fl)
      free == SelectSeq(ev.ents, LAMBDA e : e.key \notin DOMAIN ev.inp)
      outs(ents) == AllOutputs([BuildConfig(ents, dir.o).o EXCEPT !.inp = InVals(ev.inp, "dict")])
  IN  R(objs, IF ev.obs.t # "outs" THEN {"unexpected-error"}
              ELSE IF MatchDefs(outs(free), ev.obs.outs) THEN {}
              ELSE IF MatchDefs(outs(ev.ents), ev.obs.outs) THEN {"known-constant-inlined"}
              ELSE {"outputs"})

DoCfgReset(objs, ev) ==
  R([objs EXCEPT ![ev.a] = IF ev.key = "" THEN [@ EXCEPT !.out = NoDefs, !.outok = "yes"]
                           ELSE [@ EXCEPT !.out = [x \in DOMAIN @ \ {ev.key} |-> @[x]]]],
    Cl(~IsErr(ev.obs), "unexpected-error"))

DoCfgGet(objs, ev) ==
  LET c == objs[ev.a] IN
  IF c.outok # "yes" THEN R(objs, {})
  ELSE IF ev.key \in DOMAIN c.out THEN R(objs, Cl(MatchVal(c.out[ev.key], ev.obs), "get-output"))
  ELSE IF ev.key \in Keys(c)
       THEN R(IF "h" \in DOMAIN ev THEN Put(objs, ev.h, Obj(c, ev.key)) ELSE objs,
              BadObj(Obj(c, ev.key), ev.obs, ev.probes))
  ELSE R(objs, CASE ev.how = "get" -> Cl(ev.obs.t = "default", "get-default")
                 [] ev.how = "attr" -> Cl(Raised(ev.obs, {"AttributeError"}), "key-error")
                 [] OTHER -> Cl(Raised(ev.obs, {"KeyError"}), "key-error"))

(* ------------------------------------------------- refused arguments ---- *)
(* arguments that are never accepted, by the error they must raise *)
MustRaise(what) ==
  CASE what \in {"cfg-nofile", "grp-nofile"} -> {"FileNotFoundError"}
    [] what \in {"cfg-ext", "grp-ext"} -> {"ValueError"}
    [] what \in {"cfg-type", "grp-type", "var-type", "cfg-notdict-file", "grp-notdict-file"} -> {"TypeError"}
    [] what \in {"cfg-list", "cfg-dict", "cfg-none"} -> {"any"}
    [] what = "cfg-parens" -> {"any"}
    [] what = "dir-nodir" -> {"any"}
    [] OTHER -> {"any"}
DoReject(objs, ev) == R(objs, Cl(Raised(ev.obs, MustRaise(ev.what)), "must-be-rejected"))

(* ------------------------------------------------------------- step ----- *)
(* a call on an object whose construction was (rightly or wrongly) refused: *)
(* the refusal itself has been judged, there is nothing more to say         *)
NoObject(objs, ev) == \/ "a" \in DOMAIN ev /\ ev.a \notin DOMAIN objs
                      \/ "bt" \in DOMAIN ev /\ ev.bt = "h" /\ ev.b \notin DOMAIN objs
Step(objs, ev) ==
  CASE NoObject(objs, ev)  -> R(objs, {})
    [] ev.op = "eq_new"    -> DoEqNew(objs, ev)
    [] ev.op = "eq_op"     -> DoEqOp(objs, ev)
    [] ev.op = "eq_repl"   -> DoEqRepl(objs, ev)
    [] ev.op = "eq_def"    -> DoEqDef(objs, ev)
    [] ev.op = "grp_def"   -> DoGrpDef(objs, ev)
    [] ev.op = "sub_def"   -> DoSubDef(objs, ev)
    [] ev.op = "eq_eval"   -> DoEqEval(objs, ev)
    [] ev.op = "look"      -> DoLook(objs, ev)
    [] ev.op = "grp_new"   -> DoGrpNew(objs, ev)
    [] ev.op = "var_new"   -> DoVarNew(objs, ev)
    [] ev.op = "dir_new"   -> DoDirNew(objs, ev)
    [] ev.op = "get"       -> DoGet(objs, ev)
    [] ev.op = "add"       -> DoAdd(objs, ev)
    [] ev.op = "copy"      -> DoCopy(objs, ev)
    [] ev.op = "parts"     -> DoParts(objs, ev)
    [] ev.op = "text"      -> DoText(objs, ev)
    [] ev.op = "cfg_new"   -> DoCfgNew(objs, ev)
    [] ev.op = "cfg_look"  -> DoCfgLook(objs, ev)
    [] ev.op = "cfg_in"    -> DoCfgIn(objs, ev)
    [] ev.op = "cfg_set1"  -> DoCfgSet1(objs, ev)
    [] ev.op = "cfg_eval"  -> DoCfgEval(objs, ev)
    [] ev.op = "cfg_doc"   -> DoCfgDoc(objs, ev)
    [] ev.op = "cfg_reset" -> DoCfgReset(objs, ev)
    [] ev.op = "cfg_get"   -> DoCfgGet(objs, ev)
    [] ev.op = "reject"    -> DoReject(objs, ev)
    [] ev.op = "poke"      -> R(objs, {})

(* the objects a call may change; everything else must stay as it is *)
Mutated(ev) == IF ev.op \in {"eq_def", "grp_def", "sub_def", "cfg_in", "cfg_set1", "cfg_eval", "cfg_reset"}
               THEN {ev.a} ELSE {}
BadFrame(fp, ext, ev) ==
     Cl(\A x \in DOMAIN fp \ Mutated(ev) : x \in DOMAIN ev.fp /\ ev.fp[x] = fp[x], "object-modified")
  \cup Cl(ev.op = "poke" \/ \A x \in DOMAIN ext : x \in DOMAIN ev.ext /\ ev.ext[x] = ext[x], "caller-data-modified")
  (* arithmetic, replacing, merging and copying give an object of its own *)
  \cup Cl("new" \notin DOMAIN ev.obs \/ ev.obs.new, "not-a-new-object")
=============================================================================
