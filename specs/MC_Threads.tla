----------------------------- MODULE MC_Threads -----------------------------
(* Threads that take and release locks and enter a library.  For every      *)
(* assignment of programs that keeps to the discipline of FxThreads, every  *)
(* schedule runs to the end and no two threads are in the library at once.  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Locks, Threads, MaxLen

\* the discipline, as FxThreads judges it from what sequential runs show
Acts == {<<"acq", l>> : l \in Locks} \cup {<<"rel", l>> : l \in Locks} \cup {<<"call", 0>>}
RECURSIVE HeldAfter(_, _)
HeldAfter(p, n) == IF n = 0 THEN {} ELSE LET h == HeldAfter(p, n - 1) IN
    CASE p[n][1] = "acq" -> h \cup {p[n][2]} [] p[n][1] = "rel" -> h \ {p[n][2]} [] OTHER -> h
\* programs that release what they hold, and only that
WellFormed(p) == /\ HeldAfter(p, Len(p)) = {}
                 /\ \A n \in 1..Len(p) : p[n][1] = "rel" => p[n][2] \in HeldAfter(p, n - 1)
Programs == {p \in UNION {[1..n -> Acts] : n \in 1..MaxLen} : WellFormed(p)}
Sets(p) == {HeldAfter(p, n - 1) : n \in {k \in 1..Len(p) : p[k][1] = "call"}}
Edges(p) == UNION {{<<h, p[n][2]>> : h \in HeldAfter(p, n - 1)} : n \in {k \in 1..Len(p) : p[k][1] = "acq"}}
RECURSIVE After(_, _)
After(from, E) == LET nx == from \cup {e[2] : e \in {x \in E : x[1] \in from}} IN IF nx = from THEN from ELSE After(nx, E)
Disciplined(ps) ==
    LET sets == UNION {Sets(ps[t]) : t \in Threads}  E == UNION {Edges(ps[t]) : t \in Threads}
    IN /\ sets = {} \/ \E l \in Locks : \A s \in sets : l \in s
       /\ \A e \in E : e[1] \notin After({e[2]}, E)       \* includes: nobody takes what it holds

VARIABLES prog, pc, owner, inside
v == <<prog, pc, owner, inside>>
Init == /\ prog \in {ps \in [Threads -> Programs] : Disciplined(ps)}
        /\ pc = [t \in Threads |-> 1] /\ owner = [l \in Locks |-> 0] /\ inside = {}
Do(t) == /\ pc[t] <= Len(prog[t])
         /\ LET a == prog[t][pc[t]] IN
            \/ a[1] = "acq" /\ owner[a[2]] = 0 /\ owner' = [owner EXCEPT ![a[2]] = t] /\ pc' = [pc EXCEPT ![t] = @ + 1] /\ UNCHANGED inside
            \/ a[1] = "rel" /\ owner' = [owner EXCEPT ![a[2]] = 0] /\ pc' = [pc EXCEPT ![t] = @ + 1] /\ UNCHANGED inside
            \/ a[1] = "call" /\ t \notin inside /\ inside' = inside \cup {t} /\ UNCHANGED <<pc, owner>>
            \/ a[1] = "call" /\ t \in inside /\ inside' = inside \ {t} /\ pc' = [pc EXCEPT ![t] = @ + 1] /\ UNCHANGED owner
         /\ UNCHANGED prog
Finished == \A t \in Threads : pc[t] > Len(prog[t])
Next == (\E t \in Threads : Do(t)) \/ (Finished /\ UNCHANGED v)
Spec == Init /\ [][Next]_v
Exclusive == Cardinality(inside) <= 1
\* TLC's deadlock check decides that every schedule runs to the end
=============================================================================
