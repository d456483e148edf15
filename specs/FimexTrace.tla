------------------------------ MODULE FimexTrace ----------------------------
(* Checks a recorded execution of the library against Fimex: event i holds  *)
(* a command c and the observation o the library produced for it.           *)
EXTENDS Fimex, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.FX_TRACE)

VARIABLES i, S
vars == <<i, S>>
Init == i = 1 /\ S = EmptyFn
Next == /\ i <= Len(Trace)
        /\ LET ev == Trace[i]
               \* where the environment has a choice (faults), the trace tells which one it took
               r == Step(S, IF Has(ev.c, "env") THEN Put(ev.c, "env", ev.o) ELSE ev.c)
           IN /\ IF ev.c.op = "reset" THEN PrintT(<<"AT", i>>) ELSE TRUE
              /\ S' = TLCEval(r.S)
              /\ i' = i + 1
              /\ IF r.o = ev.o THEN TRUE ELSE PrintT(<<"MISMATCH", i>>) /\ PrintT(<<"EXPECTED", i, ToJson(r.o)>>)
              \* reaching the end is what counts as having checked the trace
              /\ IF i = Len(Trace) THEN PrintT(<<"CONSUMED", i, Len(Trace)>>) ELSE TRUE
Spec == Init /\ [][Next]_vars
=============================================================================
