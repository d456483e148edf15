------------------------------ MODULE FxFill2d ------------------------------
(* Filling the undefined values of a two-dimensional field.                 *)
(* Fields are sequences of rows; inputs are whole numbers or NAN, results   *)
(* are observed in thousandths.                                             *)
EXTENDS FxDataset

Undefd(d) == {i \in 1..Len(d) : d[i] = NAN}
FillIdx(nx, x, y) == y * nx + x + 1
\* what holds for every method: defined values are kept to the bit, a field that is undefined throughout stays so,
\* otherwise nothing stays undefined, and the number of undefined values is reported
Keeps(c, o) ==
    LET U == Undefd(c.d)  n == Len(c.d) IN
    /\ o.n = Cardinality(U)
    /\ o.same = n - Cardinality(U)
    /\ \A i \in 1..n : IF i \notin U THEN o.d[i] = 1000 * c.d[i] ELSE IF Cardinality(U) = n THEN o.d[i] = NAN ELSE o.d[i] # NAN /\ o.d[i] # BIG
DefinedVals(c) == {c.d[i] : i \in (1..Len(c.d)) \ Undefd(c.d)}
FillInRange(c, o, more, tol) ==
    LET V == DefinedVals(c) \cup more IN V = {} \/ \A i \in Undefd(c.d) : 1000 * SetMin(V) - tol <= o.d[i] /\ o.d[i] <= 1000 * SetMax(V) + tol
RECURSIVE SumOver(_, _)
SumOver(d, i) == IF i = 0 THEN 0 ELSE SumOver(d, i - 1) + (IF d[i] = NAN THEN 0 ELSE d[i])
Near(a, b, tol) == a - b <= tol /\ b - a <= tol

\* ------------------------------------------------------------- creepfill
\* in FS-ths; state: f values, w weights, r number of changes; the sweep is sequential
FS == 100000
CreepCell(st, c, x, y) ==
    LET i == FillIdx(c.nx, x, y) IN
    IF st.r[i] >= c.repeat THEN st
    ELSE LET N == <<i + 1, i - 1, i + c.nx, i - c.nx>>
             W == st.w[N[1]] + st.w[N[2]] + st.w[N[3]] + st.w[N[4]]
             s == st.w[N[1]] * st.f[N[1]] + st.w[N[2]] * st.f[N[2]] + st.w[N[3]] * st.f[N[3]] + st.w[N[4]] * st.f[N[4]]
         IN IF W = 0 THEN st
            ELSE [f |-> [st.f EXCEPT ![i] = RoundDiv(@ + s, 1 + W)], w |-> [st.w EXCEPT ![i] = 1], r |-> [st.r EXCEPT ![i] = @ + 1], ch |-> 1]
RECURSIVE CreepCells(_, _, _)
CreepCells(st, c, k) ==      \* k: index among the inner points, row by row
    IF k = (c.nx - 2) * (c.ny - 2) THEN st ELSE CreepCells(TLCEval(CreepCell(st, c, 1 + (k % (c.nx - 2)), 1 + (k \div (c.nx - 2)))), c, k + 1)
RECURSIVE CreepRounds(_, _, _)
CreepRounds(st, c, left) ==
    IF left = 0 \/ st.ch = 0 \/ c.nx < 3 \/ c.ny < 3 THEN st ELSE CreepRounds(TLCEval(CreepCells([st EXCEPT !.ch = 0], c, 0)), c, left - 1)
\* a border point takes from the point inside, with its weight
Inwards(st, c, i, j) ==
    IF st.r[i] >= c.repeat THEN st
    ELSE [st EXCEPT !.f[i] = RoundDiv(@ + st.f[j] * st.w[j], 1 + st.w[j]), !.w[i] = 1]
RECURSIVE CreepPairs(_, _, _)
CreepPairs(st, c, ps) == IF ps = <<>> THEN st ELSE CreepPairs(TLCEval(Inwards(st, c, Head(ps)[1], Head(ps)[2])), c, Tail(ps))
BorderPairs(nx, ny) ==
    (IF nx < 2 THEN <<>> ELSE [k \in 1..(2 * Max2(0, ny - 2)) |-> LET y == 1 + (k - 1) \div 2 IN
        IF k % 2 = 1 THEN <<FillIdx(nx, 0, y), FillIdx(nx, 1, y)>> ELSE <<FillIdx(nx, nx - 1, y), FillIdx(nx, nx - 2, y)>>])
    \o (IF ny < 2 THEN <<>> ELSE [k \in 1..(2 * nx) |-> LET x == (k - 1) \div 2 IN
        IF k % 2 = 1 THEN <<FillIdx(nx, x, 0), FillIdx(nx, x, 1)>> ELSE <<FillIdx(nx, x, ny - 1), FillIdx(nx, x, ny - 2)>>])
RECURSIVE CreepBorder(_, _, _)
CreepBorder(st, c, k) == IF k = 0 THEN st ELSE CreepBorder(TLCEval(CreepPairs(st, c, TLCEval(BorderPairs(c.nx, c.ny)))), c, k - 1)
Crept(c) ==
    LET n == Len(c.d)  U == Undefd(c.d)
        def == IF c.kind = "creepval" THEN c.def * FS ELSE RoundDiv(SumOver(c.d, n) * FS, n - Cardinality(U))
        st == [f |-> TLCEval([i \in 1..n |-> IF i \in U THEN def ELSE c.d[i] * FS]), w |-> TLCEval([i \in 1..n |-> IF i \in U THEN 0 ELSE c.weight]),
               r |-> TLCEval([i \in 1..n |-> IF i \in U THEN 0 ELSE c.repeat]), ch |-> 1]
    IN CreepBorder(TLCEval(CreepRounds(st, c, n - Cardinality(U))), c, c.repeat).f
CreepOk(c, o) ==
    /\ Keeps(c, o)
    /\ LET U == Undefd(c.d)  n == Len(c.d) IN
       U = {} \/ Cardinality(U) = n \/
         (/\ FillInRange(c, o, IF c.kind = "creepval" THEN {c.def} ELSE {}, 1)
          /\ LET m == TLCEval(Crept(c)) IN \A i \in U : Near(o.d[i], RoundDiv(m[i], FS \div 1000), 2))

\* --------------------------------------------------------------- laplace
\* inner points are the mean of their neighbours, border points equal the point inside;
\* nothing is said when the first guess (the mean) already fits inside: then the border may keep it
Inner(c) == {<<x, y>> \in (1..(c.nx - 2)) \X (1..(c.ny - 2)) : c.d[FillIdx(c.nx, x, y)] = NAN}
Mean4(f, nx, x, y) == RoundDiv(f[FillIdx(nx, x+1, y)] + f[FillIdx(nx, x-1, y)] + f[FillIdx(nx, x, y+1)] + f[FillIdx(nx, x, y-1)], 4)
LaplaceOk(c, o) ==
    /\ Keeps(c, o)
    /\ LET U == Undefd(c.d)  n == Len(c.d)
           avg == RoundDiv(SumOver(c.d, n) * 1000, n - Cardinality(U))
           f0 == TLCEval([i \in 1..n |-> IF i \in U THEN avg ELSE 1000 * c.d[i]])
           moves == \E p \in Inner(c) : ~Near(Mean4(f0, c.nx, p[1], p[2]), f0[FillIdx(c.nx, p[1], p[2])], 1000)
       IN U = {} \/ Cardinality(U) = n \/ c.loops < 1000 \/
         (/\ FillInRange(c, o, {}, c.tol)
          /\ \A p \in Inner(c) : Near(Mean4(o.d, c.nx, p[1], p[2]), o.d[FillIdx(c.nx, p[1], p[2])], c.tol)
          /\ (moves => \A k \in 1..Len(BorderPairs(c.nx, c.ny)) : LET p == BorderPairs(c.nx, c.ny)[k] IN p[1] \notin U \/ Near(o.d[p[1]], o.d[p[2]], c.tol)))
Fill2dObs(c) ==
    LET o == c.env IN
    IF o.st # "ok" THEN OkE
    ELSE IF (IF c.kind = "laplace" THEN LaplaceOk(c, o) ELSE CreepOk(c, o)) THEN o
    ELSE [st |-> "ok", wanted |-> IF c.kind = "laplace" \/ Undefd(c.d) \in {{}, 1..Len(c.d)} THEN <<>> ELSE [i \in 1..Len(c.d) |-> RoundDiv(Crept(c)[i], FS \div 1000)]]
=============================================================================
