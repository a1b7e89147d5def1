------------------------------- MODULE Trace -------------------------------
(* Trace validation: every recorded session must be a behaviour of          *)
(* NrwalSession.  One initial state per recorded trace, one step per event. *)
(* The verdict is total: an event that the specification does not allow is  *)
(* reported with the violated clauses and validation goes on.               *)
EXTENDS NrwalSession, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, l, objs, fp, ext
vars == <<tid, l, objs, fp, ext>>

Init == /\ tid \in 1..Len(Traces)
        /\ l = 1
        /\ objs = [x \in {} |-> 0]
        /\ fp = [x \in {} |-> ""]
        /\ ext = [x \in {} |-> ""]

Next == /\ l <= Len(Traces[tid].ev)
        /\ LET ev == Traces[tid].ev[l]
               r  == TLCEval(Step(objs, ev))
               bad == r.bad \cup BadFrame(fp, ext, ev)
           IN  /\ objs' = r.objs
               /\ bad # {} => PrintT("@FAIL " \o ToString(<<Traces[tid].id, l, bad>>))
               /\ fp' = ev.fp
               /\ ext' = ev.ext
        /\ l' = l + 1
        /\ UNCHANGED tid

Spec == Init /\ [][Next]_vars
(* so that TLC does not print the whole session in its statistics *)
View == <<tid, l>>
=============================================================================
