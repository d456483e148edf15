----------------------------- MODULE FxThreads ------------------------------
(* Concurrency.  netCDF/HDF5 and udunits keep state of their own and are    *)
(* not reentrant; what makes every schedule safe is a discipline on locks:  *)
(* all calls of one library are made under one common lock, no thread takes *)
(* a lock it already holds, and the order in which locks are taken has no   *)
(* cycle.  A run of the library is observed as the set of lock sets under   *)
(* which each library was entered and the pairs (held, taken) of locks.     *)
(* MC_Threads shows that the discipline excludes overlapping calls and      *)
(* deadlocks for every schedule.                                            *)
EXTENDS FxDataset

LocksetsOf(calls, lib) == {{calls[i].locks[k] : k \in 1..Len(calls[i].locks)} : i \in {j \in 1..Len(calls) : calls[j].lib = lib}}
CommonLocks(sets) == {l \in UNION sets : \A s \in sets : l \in s}
OneLock(sets) == sets = {} \/ CommonLocks(sets) # {}
\* locks reachable by following the pairs (held, taken)
RECURSIVE LocksAfter(_, _)
LocksAfter(from, E) == LET nx == from \cup {e[2] : e \in {x \in E : x[1] \in from}} IN IF nx = from THEN from ELSE LocksAfter(nx, E)
NoCycle(E) == \A e \in E : e[1] \notin LocksAfter({e[2]}, E)
Disciplined(o) ==
    /\ \A lib \in {"netcdf", "udunits"} : OneLock(LocksetsOf(o.calls, lib))
    /\ NoCycle({<<o.edges[i][1], o.edges[i][2]>> : i \in 1..Len(o.edges)})
    /\ o.self = 0
\* the monitored run is accepted as it is, if it keeps to the discipline
MonitorObs(c) == IF c.on = 1 THEN OkE ELSE IF Disciplined(c.env) THEN c.env ELSE [st |-> "ok", undisciplined |-> LocksetsOf(c.env.calls, "netcdf")]
=============================================================================
