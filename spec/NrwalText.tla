----------------------------- MODULE NrwalText -----------------------------
(* The text of NRWAL equations: characters, tokens, grammar, syntax trees.  *)
(* This is the meaning a reader gives to an equation or a config entry:     *)
(* the usual arithmetic grammar (python's), where ^ and ** are both power.  *)
EXTENDS NrwalNum

Ch(s, i) == SubSeq(s, i, i)

Digit   == {"0","1","2","3","4","5","6","7","8","9"}
Letter  == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p",
            "q","r","s","t","u","v","w","x","y","z",
            "A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P",
            "Q","R","S","T","U","V","W","X","Y","Z"}
WordCh  == Letter \cup Digit \cup {"_"}
Blank   == {" ", "\t", "\n"}
DVal    == ("0" :> 0) @@ ("1" :> 1) @@ ("2" :> 2) @@ ("3" :> 3) @@ ("4" :> 4) @@
           ("5" :> 5) @@ ("6" :> 6) @@ ("7" :> 7) @@ ("8" :> 8) @@ ("9" :> 9)

Has(s, sub) == \E i \in 1..(Len(s) - Len(sub) + 1) :
                  SubSeq(s, i, i + Len(sub) - 1) = sub
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p)   == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
CountSub(s, sub) == Cardinality({i \in 1..(Len(s) - Len(sub) + 1) :
                       SubSeq(s, i, i + Len(sub) - 1) = sub})

RECURSIVE StripL(_), StripR(_)
StripL(s) == IF Len(s) > 0 /\ Ch(s, 1) \in Blank THEN StripL(SubSeq(s, 2, Len(s))) ELSE s
StripR(s) == IF Len(s) > 0 /\ Ch(s, Len(s)) \in Blank THEN StripR(SubSeq(s, 1, Len(s) - 1)) ELSE s
Strip(s)  == StripL(StripR(s))

(* split at every occurrence of "::" / at every "/" *)
RECURSIVE SplitAt(_, _, _, _)
SplitAt(s, sep, i, from) ==
  IF i + Len(sep) - 1 > Len(s) THEN <<SubSeq(s, from, Len(s))>>
  ELSE IF SubSeq(s, i, i + Len(sep) - 1) = sep
       THEN <<SubSeq(s, from, i - 1)>> \o SplitAt(s, sep, i + Len(sep), i + Len(sep))
       ELSE SplitAt(s, sep, i + 1, from)
Split(s, sep) == SplitAt(s, sep, 1, 1)

RECURSIVE JoinWith(_, _)
JoinWith(seq, sep) == IF seq = <<>> THEN "" ELSE IF Len(seq) = 1 THEN seq[1]
                      ELSE seq[1] \o sep \o JoinWith(Tail(seq), sep)

(* ------------------------------------------------------------ numbers -- *)
(* [0-9]+(.[0-9]* )?([eE][+-]?[0-9]+)? or .[0-9]+...  as a state machine *)
RECURSIVE NumScan(_, _, _, _)
(* state: n mantissa, sc number of decimals, st phase, ok/ovf *)
NumScan(s, i, z, phase) ==
  IF i > Len(s) THEN [z EXCEPT !.ok = (phase \in {"int", "frac", "exp"} /\ z.nd > 0)]
  ELSE LET c == Ch(s, i) IN
    CASE c \in Digit /\ phase \in {"start", "int"} ->
           NumScan(s, i + 1, IF z.m > 20000000 THEN [z EXCEPT !.nd = @ + 1, !.cut = TRUE, !.sc = @ - 1]
                             ELSE [z EXCEPT !.nd = @ + 1, !.m = @ * 10 + DVal[c]], "int")
      [] c \in Digit /\ phase = "frac" ->
           NumScan(s, i + 1, IF z.m > 20000000 THEN [z EXCEPT !.nd = @ + 1, !.cut = TRUE]
                             ELSE [z EXCEPT !.nd = @ + 1, !.sc = @ + 1, !.m = @ * 10 + DVal[c]], "frac")
      [] c = "." /\ phase \in {"start", "int"} -> NumScan(s, i + 1, z, "frac")
      [] c \in {"e", "E"} /\ phase \in {"int", "frac"} /\ z.nd > 0 -> NumScan(s, i + 1, z, "expstart")
      [] c \in {"+", "-"} /\ phase = "expstart" ->
           NumScan(s, i + 1, [z EXCEPT !.es = IF c = "-" THEN -1 ELSE 1], "expsign")
      [] c \in Digit /\ phase \in {"expstart", "expsign", "exp"} ->
           NumScan(s, i + 1, [z EXCEPT !.e = IF @ > 99 THEN 100 ELSE @ * 10 + DVal[c]], "exp")
      [] OTHER -> [z EXCEPT !.ok = FALSE]

NumInfo(s) == NumScan(s, 1, [m |-> 0, sc |-> 0, e |-> 0, es |-> 1, nd |-> 0, cut |-> FALSE, ok |-> FALSE], "start")

NumVal(s) == LET z == NumInfo(s)
                 p == z.es * z.e - z.sc
                 x == IF z.cut \/ p > 8 \/ p < -8 \/ (p >= 0 /\ z.m > WLIM \div Pow10(p)) THEN UNK
                      ELSE IF p >= 0 THEN Mk(z.m * Pow10(p), 1)
                      ELSE Mk(z.m, Pow10(-p))
             IN  IF z.m = 0 /\ ~z.cut THEN <<0, 1>>
                 ELSE IF ~Unk(x) THEN x
                 ELSE IF Abs(p) > 60 THEN UNK
                 ELSE ANorm(z.m, p, IF z.cut THEN 1 ELSE 0)

(* python float() accepts a sign and surrounding blanks *)
SignedBody(s) == IF Len(s) > 0 /\ Ch(s, 1) \in {"+", "-"} THEN SubSeq(s, 2, Len(s)) ELSE s
IsNumText(s)  == LET t == Strip(s) IN NumInfo(SignedBody(t)).ok
NumTextVal(s) == LET t == Strip(s)
                     v == NumVal(SignedBody(t))
                 IN  IF Len(t) > 0 /\ Ch(t, 1) = "-" THEN QNeg(v) ELSE v

(* ------------------------------------------------------------- tokens -- *)
(* <<kind, text>> with kind in num, name, op, cmp, (, ), comma, =, bad      *)
RECURSIVE RunEnd(_, _)
(* end of a maximal run of word characters, dots and "::" starting at i *)
RunEnd(s, i) ==
  IF i > Len(s) THEN i - 1
  ELSE IF Ch(s, i) \in WordCh \cup {"."} THEN RunEnd(s, i + 1)
  ELSE IF i + 2 <= Len(s) /\ SubSeq(s, i, i + 1) = "::" THEN RunEnd(s, i + 2)
  ELSE i - 1

(* 1e | -5 : a number cut at the sign of its exponent *)
ExpCut(s, i, j) == /\ Ch(s, i) \in Digit \cup {"."}
                   /\ Ch(s, j) \in {"e", "E"}
                   /\ j > i /\ NumInfo(SubSeq(s, i, j - 1)).ok
                   /\ j + 2 <= Len(s)
                   /\ Ch(s, j + 1) \in {"+", "-"}
                   /\ Ch(s, j + 2) \in Digit

RECURSIVE DigitsEnd(_, _)
DigitsEnd(s, i) == IF i <= Len(s) /\ Ch(s, i) \in Digit THEN DigitsEnd(s, i + 1) ELSE i - 1

RECURSIVE LexFrom(_, _)
LexFrom(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE LET c == Ch(s, i)
           two == IF i < Len(s) THEN SubSeq(s, i, i + 1) ELSE ""
       IN
    CASE c \in Blank -> LexFrom(s, i + 1)
      [] c \in WordCh \cup {"."} ->
           LET j0 == RunEnd(s, i)
               j  == IF ExpCut(s, i, j0) THEN DigitsEnd(s, j0 + 2) ELSE j0
               w  == SubSeq(s, i, j)
           IN  <<IF NumInfo(w).ok THEN <<"num", w>> ELSE <<"name", w>>>> \o LexFrom(s, j + 1)
      [] two = "**" -> <<<<"op", "^">>>> \o LexFrom(s, i + 2)
      [] two \in {">=", "<=", "==", "!="} -> <<<<"cmp", two>>>> \o LexFrom(s, i + 2)
      [] c \in {"+", "-", "*", "/", "^"} -> <<<<"op", c>>>> \o LexFrom(s, i + 1)
      [] c \in {"<", ">"} -> <<<<"cmp", c>>>> \o LexFrom(s, i + 1)
      [] c \in {"(", ")", ",", "=", "[", "]"} -> <<<<c, c>>>> \o LexFrom(s, i + 1)
      [] OTHER -> <<<<"bad", c>>>> \o LexFrom(s, i + 1)

Lex(s) == LexFrom(s, 1)

(* ------------------------------------------------------- syntax trees -- *)
Num(q)        == [n |-> "num", q |-> q]
Var(s)        == [n |-> "var", s |-> s]
Bin(op, l, r) == [n |-> "bin", op |-> op, l |-> l, r |-> r]
Neg(l)        == [n |-> "neg", l |-> l]
Call(f, args, kws) == [n |-> "call", f |-> f, args |-> args, kws |-> kws]
Arr(args)     == [n |-> "arr", args |-> args]
Bad           == [n |-> "bad"]

(* Recursive descent.  Every operator returns <<tree, next position>>.      *)
(*   cmp  := add (cmpop add)?        add := mul { (plus or minus) mul }              *)
(*   mul  := una { (mul or div) una }      una := (+|-) una | pow                 *)
(*   pow  := atom (^ una)?           atom := num | name | call | ( cmp )    *)
Kind(t, p) == IF p > Len(t) THEN "end" ELSE t[p][1]
Txt(t, p)  == IF p > Len(t) THEN "" ELSE t[p][2]
IsOp(t, p, ops) == Kind(t, p) = "op" /\ Txt(t, p) \in ops

RECURSIVE PCmp(_, _), PAdd(_, _), PAddR(_, _), PMul(_, _), PMulR(_, _),
          PUna(_, _), PPow(_, _), PAtom(_, _), PArgs(_, _, _, _, _)

PCmp(t, p) == LET a == PAdd(t, p) IN
  IF Kind(t, a[2]) = "cmp"
  THEN LET b == PAdd(t, a[2] + 1)
       IN  IF Kind(t, b[2]) = "cmp" THEN <<Bad, Len(t) + 2>>
           ELSE <<Bin(Txt(t, a[2]), a[1], b[1]), b[2]>>
  ELSE a

PAdd(t, p) == PAddR(t, PMul(t, p))
PAddR(t, a) == IF IsOp(t, a[2], {"+", "-"})
  THEN LET b == PMul(t, a[2] + 1) IN PAddR(t, <<Bin(Txt(t, a[2]), a[1], b[1]), b[2]>>)
  ELSE a

PMul(t, p) == PMulR(t, PUna(t, p))
PMulR(t, a) == IF IsOp(t, a[2], {"*", "/"})
  THEN LET b == PUna(t, a[2] + 1) IN PMulR(t, <<Bin(Txt(t, a[2]), a[1], b[1]), b[2]>>)
  ELSE a

PUna(t, p) == IF IsOp(t, p, {"-"}) THEN LET a == PUna(t, p + 1) IN <<Neg(a[1]), a[2]>>
              ELSE IF IsOp(t, p, {"+"}) THEN PUna(t, p + 1)
              ELSE PPow(t, p)

PPow(t, p) == LET a == PAtom(t, p) IN
  IF IsOp(t, a[2], {"^"})
  THEN LET b == PUna(t, a[2] + 1) IN <<Bin("^", a[1], b[1]), b[2]>>
  ELSE a

PAtom(t, p) ==
  CASE Kind(t, p) = "num" -> <<Num(NumVal(Txt(t, p))), p + 1>>
    [] Kind(t, p) = "name" /\ Kind(t, p + 1) = "(" ->
         LET a == PArgs(t, p + 2, <<>>, <<>>, ")")
         IN  <<IF a[1].n = "bad" THEN Bad ELSE Call(Txt(t, p), a[1].args, a[1].kws), a[2]>>
    [] Kind(t, p) = "name" -> <<Var(Txt(t, p)), p + 1>>
    [] Kind(t, p) = "[" ->
         LET a == PArgs(t, p + 1, <<>>, <<>>, "]")
         IN  <<IF a[1].n = "bad" THEN Bad ELSE Arr(a[1].args), a[2]>>
    [] Kind(t, p) = "(" ->
         LET a == PCmp(t, p + 1)
         IN  IF Kind(t, a[2]) = ")" THEN <<a[1], a[2] + 1>> ELSE <<Bad, Len(t) + 2>>
    [] OTHER -> <<Bad, Len(t) + 2>>

PArgs(t, p, args, kws, close) ==
  IF Kind(t, p) = close THEN <<[n |-> "args", args |-> args, kws |-> kws], p + 1>>
  ELSE IF Kind(t, p) = "name" /\ Kind(t, p + 1) = "="
  THEN LET a == PCmp(t, p + 2) IN
       IF Kind(t, a[2]) = "," THEN PArgs(t, a[2] + 1, args, Append(kws, <<Txt(t, p), a[1]>>), close)
       ELSE IF Kind(t, a[2]) = close
            THEN <<[n |-> "args", args |-> args, kws |-> Append(kws, <<Txt(t, p), a[1]>>)], a[2] + 1>>
            ELSE <<Bad, Len(t) + 2>>
  ELSE LET a == PCmp(t, p) IN
       IF Kind(t, a[2]) = "," THEN PArgs(t, a[2] + 1, Append(args, a[1]), kws, close)
       ELSE IF Kind(t, a[2]) = close
            THEN <<[n |-> "args", args |-> Append(args, a[1]), kws |-> kws], a[2] + 1>>
            ELSE <<Bad, Len(t) + 2>>

RECURSIVE WellFormed(_)
WellFormed(a) ==
  CASE a.n = "bad" -> FALSE
    [] a.n \in {"num", "var"} -> TRUE
    [] a.n = "neg" -> WellFormed(a.l)
    [] a.n = "bin" -> WellFormed(a.l) /\ WellFormed(a.r)
    [] a.n = "arr" -> \A i \in 1..Len(a.args) : WellFormed(a.args[i])
    [] a.n = "call" -> /\ \A i \in 1..Len(a.args) : WellFormed(a.args[i])
                       /\ \A i \in 1..Len(a.kws) : WellFormed(a.kws[i][2])

Parse(s) == LET t == Lex(s)
                a == PCmp(t, 1)
            IN  IF a[2] = Len(t) + 1 /\ WellFormed(a[1]) THEN a[1] ELSE Bad

(* numpy / pandas names are not inputs of an equation *)
IsMethod(s) == StartsWith(s, "np.") \/ StartsWith(s, "pd.")

RECURSIVE Names(_)
(* the input variables of an equation: every name that is read, except      *)
(* numpy names and the keyword in f(x, keyword=1)                           *)
Names(a) ==
  CASE a.n \in {"num", "bad"} -> {}
    [] a.n = "var" -> IF IsMethod(a.s) THEN {} ELSE {a.s}
    [] a.n = "neg" -> Names(a.l)
    [] a.n = "bin" -> Names(a.l) \cup Names(a.r)
    [] a.n = "arr" -> UNION {Names(a.args[i]) : i \in 1..Len(a.args)}
    [] a.n = "call" -> (IF IsMethod(a.f) THEN {} ELSE {a.f})
                       \cup UNION {Names(a.args[i]) : i \in 1..Len(a.args)}
                       \cup UNION {Names(a.kws[i][2]) : i \in 1..Len(a.kws)}
=============================================================================
