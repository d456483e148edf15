------------------------------ MODULE FxArrays ------------------------------
(* Multi-dimensional arrays as flat sequences.  Shapes list the fastest     *)
(* running dimension first, indices count from 0, sequences from 1.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
\* truncation towards zero and rounding half away from zero of p/q, q > 0
TruncDiv(p, q) == IF p >= 0 THEN p \div q ELSE -((-p) \div q)
RoundDivNN(p, q) == (p \div q) + (IF 2 * (p % q) >= q THEN 1 ELSE 0)
RoundDiv(p, q) == IF p >= 0 THEN RoundDivNN(p, q) ELSE -RoundDivNN(-p, q)

EmptyFn == [x \in {} |-> 0]
Range(f) == {f[x] : x \in DOMAIN f}
SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x
SetMin(S) == CHOOSE x \in S : \A y \in S : y >= x
\* g overrides f
Over(f, g) == TLCEval(g @@ f)
Put(f, k, v) == TLCEval((k :> v) @@ f)
Without(f, K) == TLCEval([x \in (DOMAIN f) \ K |-> f[x]])
Get(f, k, dflt) == IF k \in DOMAIN f THEN f[k] ELSE dflt
Has(f, k) == k \in DOMAIN f

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
Iota(n) == [i \in 1..n |-> i - 1]               \* 0, 1, .., n-1
Span(start, n) == [i \in 1..n |-> start + i - 1]
Const(n, v) == [i \in 1..n |-> v]
IndexOf(s, x) == LET H == {i \in 1..Len(s) : s[i] = x} IN IF H = {} THEN 0 ELSE SetMin(H)
ContainsX(s, x) == \E i \in 1..Len(s) : s[i] = x
SelectIdx(s, T(_)) == SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : T(s[i]))
RECURSIVE ConcatAll(_)
ConcatAll(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o ConcatAll(Tail(ss))
IsSorted(s) == \A i \in 1..(Len(s)-1) : s[i] <= s[i+1]
RECURSIVE SetToSortedSeq(_)
SetToSortedSeq(S) == IF S = {} THEN <<>> ELSE LET m == SetMin(S) IN <<m>> \o SetToSortedSeq(S \ {m})

Stride(lens, k) == Prod(SubSeq(lens, 1, k - 1))

\* flat offsets (0-based) of the elements picked by idx[1] x .. x idx[k]
RECURSIVE Offs(_, _, _)
Offs(lens, idx, k) ==
    IF k = 0 THEN <<0>>
    ELSE LET low == Offs(lens, idx, k - 1)
             n == Len(low)
             s == Stride(lens, k)
         IN IF n = 0 THEN <<>>
            ELSE TLCEval([i \in 1..(n * Len(idx[k])) |-> low[((i-1) % n) + 1] + idx[k][((i-1) \div n) + 1] * s])

\* the sub-array of d (of shape lens) picked by the index lists idx, one per dimension
Gather(d, lens, idx) ==
    LET o == Offs(lens, idx, Len(lens)) IN TLCEval([i \in 1..Len(o) |-> d[o[i] + 1]])

\* d with the elements picked by idx replaced by e
Scatter(d, lens, idx, e) ==
    LET o == Offs(lens, idx, Len(lens))
        at == [p \in {o[i] : i \in 1..Len(o)} |-> CHOOSE i \in 1..Len(o) : o[i] = p]
    IN TLCEval([i \in 1..Len(d) |-> IF (i-1) \in DOMAIN at THEN e[at[i-1]] ELSE d[i]])

\* coordinates of flat offset o (0-based)
Coord(lens, o, k) == (o \div Stride(lens, k)) % lens[k]
=============================================================================
