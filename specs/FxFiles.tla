------------------------------- MODULE FxFiles ------------------------------
(* Files: which ones a pattern finds, and what a file is opened as.         *)
(* Names and patterns are sequences of character codes.                     *)
EXTENDS FxAggregate

Slash == 47  Star == 42  Question == 63
\* tokens of a pattern: the codes, 1 for * and 2 for ** and 3 for ?
RECURSIVE GlobTokens(_)
GlobTokens(g) ==
    IF g = <<>> THEN <<>>
    ELSE IF Head(g) = Star /\ Len(g) > 1 /\ g[2] = Star THEN <<2>> \o GlobTokens(SubSeq(g, 3, Len(g)))
    ELSE <<CASE Head(g) = Star -> 1 [] Head(g) = Question -> 3 [] OTHER -> Head(g)>> \o GlobTokens(Tail(g))
\* the positions of path p reachable from the positions P (consumed codes) with the next token
AfterToken(p, P, t) ==
    CASE t = 1 -> {j \in 0..Len(p) : \E i \in P : i <= j /\ \A k \in (i+1)..j : p[k] # Slash}
      [] t = 2 -> {j \in 0..Len(p) : \E i \in P : i <= j}
      [] t = 3 -> {i + 1 : i \in {i \in P : i < Len(p) /\ p[i+1] # Slash}}
      [] OTHER -> {i + 1 : i \in {i \in P : i < Len(p) /\ p[i+1] = t}}
RECURSIVE AfterTokens(_, _, _)
AfterTokens(p, P, ts) == IF ts = <<>> \/ P = {} THEN P ELSE AfterTokens(p, TLCEval(AfterToken(p, P, Head(ts))), Tail(ts))
GlobMatches(p, ts) == Len(p) \in AfterTokens(p, {0}, ts)
\* directory by directory, names in order
CodeOf(x) == IF x = Slash THEN 0 ELSE x
PathBefore(a, b) ==
    LET D == {i \in 1..Min2(Len(a), Len(b)) : a[i] # b[i]} IN
    IF D = {} THEN Len(a) < Len(b) ELSE LET i == SetMin(D) IN CodeOf(a[i]) < CodeOf(b[i])
\* the directory that is searched: up to the last / before the first wildcard
FixedPart(g) ==
    LET W == {i \in 1..Len(g) : g[i] \in {Star, Question}}
        w == IF W = {} THEN Len(g) + 1 ELSE SetMin(W)
    IN SubSeq(g, 1, SetMax({0} \cup {i \in 1..(w - 1) : g[i] = Slash}))
StartsWith(p, f) == Len(p) >= Len(f) /\ SubSeq(p, 1, Len(f)) = f
GlobObs(c) ==
    LET ts == TLCEval(GlobTokens(c.g))
        m  == SelectSeq(c.files, LAMBDA p : GlobMatches(p, ts))
        f  == FixedPart(c.g)
        there == f = <<>> \/ (\E i \in 1..Len(c.files) : StartsWith(c.files[i], f)) \/ \E i \in 1..Len(c.dirs) : StartsWith(Append(c.dirs[i], Slash), f)
    IN IF ~there /\ c.env.st = "err" THEN Err
       ELSE [st |-> "ok", r |-> IF Len(m) < 2 THEN m ELSE SortSeq(m, PathBefore)]

NcTypes == {"nc4", "nc", "netcdf4", "netcdf", "nc4c", "nc4classic", "netcdf4classic", "nc3", "cdf", "netcdf3"}
\* which format: a known type name decides; otherwise the content (for reading), otherwise the name
FormatFor(type, ext, kind) ==
    IF type \in NcTypes THEN "nc"
    ELSE IF type \in {"ncml", "null"} THEN type
    ELSE IF kind = "nc" THEN "nc"
    ELSE IF ext \in {"nc", "nc4"} THEN "nc"
    ELSE IF ext = "ncml" THEN "ncml"
    ELSE "none"
\* NcML knows no unsigned types: variables are marked, attributes become signed
SignedOf(t) == CASE t = "uchar" -> "char" [] t = "ushort" -> "short" [] t = "uint" -> "int" [] t = "uint64" -> "int64" [] OTHER -> t
NcmlAtts(a) == TLCEval([k \in DOMAIN a |-> [a[k] EXCEPT !.t = SignedOf(@)]])
NcmlForm(ds) ==
    [ds EXCEPT !.ga = NcmlAtts(@),
               !.vars = TLCEval([v \in DOMAIN @ |-> [@[v] EXCEPT !.a = LET a == NcmlAtts(@) IN
                                     IF SignedOf(ds.vars[v].t) # ds.vars[v].t THEN Put(a, "_Unsigned", [t |-> "string", s |-> "true"]) ELSE a]])]
\* the files joined along their unlimited dimension in order
Joined(dss) == Aggregate("joinExisting", dss, "", {}, <<>>, "")
=============================================================================
