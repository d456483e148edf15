-------------------------------- MODULE Fimex -------------------------------
(* The system: a registry of readers.  A reader denotes a dataset; commands *)
(* create readers, derive readers from readers and observe them.            *)
(* Step(S, c) is the registry after command c and what c must report.       *)
EXTENDS FxCDM, FxExtract, FxConvert, FxAggregate, FxNcml, FxNetcdf, FxProcess, FxTime, FxHorizontal, FxVertical, FxQuality, FxFill, FxCApi, FxCalendar, FxCoordSys, FxProjection, FxThreads, FxFill2d, FxMerge, FxForward, FxFiles

\* a dataset without the memory of the reader that made it
Plain(ds) == Without(ds, {"x", "ti", "hi", "pp", "vi", "rw", "cb", "kind"})
Known(S, id) == id \in DOMAIN S
Done(S, o) == [S |-> S, o |-> o]

ReadObs(S, c) ==
    IF ~Known(S, c.id) THEN Err
    ELSE LET ds == S[c.id]
             sl == IF Has(c, "pos") THEN (IF c.var \in DOMAIN ds.vars THEN PosSl(ds, c.var, c.pos) ELSE EmptyFn)
                   ELSE Get(c, "sl", EmptyFn)
         IN IF c.var \notin DOMAIN ds.vars THEN Err
            ELSE IF ~BlockOk(ds, c.var, sl) THEN Err
            ELSE IF ~HasData(ds, c.var) THEN Err     \* nothing to deliver
            ELSE IF Has(ds.vars[c.var], "bad") THEN (IF Has(c, "env") /\ \E k \in DOMAIN sl : sl[k][2] = 0 THEN c.env ELSE Err)
            ELSE IF Has(ds.vars[c.var], "e") THEN [st |-> "ok", t |-> IF Has(c, "ty") THEN "any" ELSE IF c.mode = "raw" THEN ds.vars[c.var].t ELSE "double", d |-> <<>>]
            ELSE LET d0 == Block(ds, c.var, sl)
                     \* FRAC: a defined value that the specification does not give in this resolution
                     d == IF Has(c, "env") /\ Has(c.env, "d") /\ Len(c.env.d) = Len(d0)
                          THEN TLCEval([i \in 1..Len(d0) |-> IF d0[i] = FRAC /\ c.env.d[i] # NAN THEN c.env.d[i] ELSE d0[i]]) ELSE d0
                 IN
                 IF c.mode = "raw" THEN [st |-> "ok", t |-> IF Has(c, "ty") THEN "any" ELSE IF Has(c, "pos") /\ c.pos > 0 /\ Has(ds.vars[c.var], "pt") THEN "double" ELSE ds.vars[c.var].t, d |-> d]
                 ELSE IF ~FillOk(ds, c.var) THEN Err
                 ELSE IF c.mode = "scaled" THEN [st |-> "ok", t |-> "double", d |-> PhysSeq(ds, c.var, d)]
                 ELSE LET u == UnitsOf(ds, c.var) IN
                      IF ~ConvertibleU(u, c.unit) THEN Err
                      ELSE LET k == UnitConv(u, c.unit)  m == PhysSeq(ds, c.var, d)
                           IN [st |-> "ok", t |-> "double", d |-> TLCEval([i \in 1..Len(m) |-> InUnit(m[i], k)])]

\* the C interface: the same commands by other means
RECURSIVE Step(_, _)
CStep(S, c) ==
    CASE c.f = "open"  -> Step(S, Put(c, "op", IF c.type = "netcdf+rw" THEN "rw" ELSE "open"))
      [] c.f = "ncml"  -> Step(S, Put(c, "op", "ncml"))
      [] c.f = "write" -> IF c.type \notin {"netcdf3", "nc3", "netcdf4", "nc4", "netcdf4classic", "nc4c"} THEN Done(S, Err) ELSE Step(S, Put(Put(c, "op", "write"), "cfg", EmptyFn))
      [] c.f = "callback" -> Done(Put(S, c.id, Put(Plain(S[c.from]), "cb", Plain(S[c.from]))), OkE)
      [] c.f = "set"   -> IF ~Has(S[c.id], "cb") \/ c.var \notin DOMAIN S[c.id].vars THEN Done(S, Err)
                          ELSE Done(Put(S, c.id, [S[c.id] EXCEPT !.vars[c.var] = Callback(S[c.id].cb, c).vars[c.var]]), OkE)
      [] c.f = "desc"  -> Done(S, CDescObs(S[c.id]))
      [] c.f = "slice" -> Done(S, IF c.var \notin DOMAIN S[c.id].vars THEN Err ELSE CSliceObs(S[c.id], c))
      [] c.f = "read"  -> Done(S, ReadObs(S, Put(c, "mode", IF Get(c, "unit", "") = "" THEN "scaled" ELSE "unit")))
      [] c.f = "put"   -> IF Len(c.d) = 0 /\ c.var \in DOMAIN S[c.id].vars /\ BlockOk(S[c.id], c.var, c.sl) THEN Done(S, OkE)
                          ELSE IF ~Has(S[c.id], "rw") THEN Done(S, Err)
                          ELSE IF c.var \notin DOMAIN S[c.id].vars \/ ~BlockOk(S[c.id], c.var, c.sl) THEN Done(S, Err)
                          ELSE Step(S, Put(Put(c, "op", "put"), "mode", IF Get(c, "unit", "") = "" THEN "scaled" ELSE "unit"))
Step(S, c) ==
    CASE c.op = "reset" -> Done(EmptyFn, OkE)
      [] c.op = "src"   -> Done(Put(S, c.id, c.ds), OkE)
      [] c.op = "drop"  -> Done(Without(S, {c.id}), OkE)
      [] c.op = "desc"  -> Done(S, IF ~Known(S, c.id) THEN Err
                                   ELSE IF Has(c, "names") THEN LET d == Desc(S[c.id]) IN [d EXCEPT !.vars = Without(@, DOMAIN @ \ Range(c.names))]
                                   ELSE Desc(S[c.id]))
      [] c.op = "read"  -> Done(S, ReadObs(S, c))
      [] c.op = "conv"  -> Done(S, Convert(c))
      [] c.op = "cdm"   -> LET r == CdmOp(Get(S, c.id, EmptyCDM), c)
                           IN Done(Put(S, c.id, r.ds), [Desc(r.ds) EXCEPT !.st = r.st] @@ ("r" :> r.r))
      [] c.op = "cdmcopy" -> Done(Put(S, c.id, S[c.from]), Desc(S[c.from]))
      [] c.op = "cdmq"  -> Done(S, CdmQuery(Get(S, c.id, EmptyCDM), c))
      [] c.op = "agg"   -> Done(Put(S, c.id, Aggregate(c.type, [k \in 1..Len(c.srcs) |-> S[c.srcs[k]]], c.dim, Range(c.vars), c.coords, c.ctype)), OkE)
      [] c.op = "ncml"  -> LET r == Ncml(S[c.from], c.doc) IN IF r.st = "ok" THEN Done(Put(S, c.id, r.ds), OkE) ELSE Done(Without(S, {c.id}), Err)
      [] c.op = "proc"  -> IF ProcOk(S[c.from], Range(c.acc), Range(c.deacc))
                           THEN Done(Put(S, c.id, Process(Plain(S[c.from]), Range(c.acc), Range(c.deacc))), OkE)
                           ELSE Done(Without(S, {c.id}), Err)
      [] c.op = "quality" -> LET r == Quality(S, Plain(S[c.from]), c) IN IF r.st = "ok" THEN Done(Put(S, c.id, r.ds), OkE) ELSE Done(Without(S, {c.id}), Err)
      [] c.op = "coordsys" -> Done(S, CoordSysObs(S[c.id], c))
      [] c.op = "besthoriz" -> Done(S, BestObs(S[c.id], c))
      [] c.op = "vectors" -> Done(S, VectorObs(S[c.id], c))
      [] c.op = "proj4" -> Done(S, Proj4Obs(c))
      [] c.op = "projatts" -> Done(S, ProjAttsObs(c))
      \* a call of the file library fails within a command: whatever becomes of the command, no lock is kept
      [] c.op = "ncfault" -> Done(IF c.cmd.op = "read" THEN S ELSE Without(S, {Get(c.cmd, "id", ""), "file:" \o Get(c.cmd, "file", "")} \ (IF c.cmd.op = "open" THEN {"file:" \o c.cmd.file} ELSE {})),
                                  [st |-> "ok", hit |-> c.env.hit, left |-> 0])
      [] c.op = "overlay" -> Done(Put(S, c.id, Overlay(Plain(S[c.base]), Plain(S[c.top]), c)), OkE)
      [] c.op = "smooth" -> Done(Put(S, c.id, Smooth(Plain(S[c.base]), Plain(S[c.top]), c)), OkE)
      [] c.op = "merge" -> Done(Put(S, c.id, Merge(Plain(S[c.base]), Plain(S[c.top]), c)), OkE)
      [] c.op = "blend" -> Done(S, BlendObs(c))
      [] c.op = "fill2d" -> Done(S, Fill2dObs(c))
      [] c.op = "earthfigure" -> Done(S, EarthfigureObs(c))
      [] c.op = "cal" -> Done(S, CalendarObs(S, c))
      [] c.op = "timespec" -> Done(S, TimeSpecObs(c))
      [] c.op = "tint"  -> Done(Put(S, c.id, Put(Plain(S[c.from]), "ti", Plain(S[c.from]))), OkE)
      [] c.op = "tintchange" -> LET r == ChangeTimes(S[c.id].ti, c.axis, c)
                           IN IF r.st = "ok" THEN Done(Put(S, c.id, Put(r.ds, "ti", S[c.id].ti)), OkE) ELSE Done(S, Err)
      [] c.op = "p2p"   -> Done(S, PositionsObs(c))
      [] c.op = "hval"  -> Done(S, FieldObs(c))
      [] c.op = "interp" -> Done(Put(S, c.id, Put(Put(Plain(S[c.from]), "hi", Plain(S[c.from])), "pp", IF "pre" \in DOMAIN c THEN [pre |-> c.pre, post |-> c.post] ELSE NoProcess)), OkE)
      [] c.op = "interpto" /\ c.m \in ForwardMethods -> Done(Put(S, c.id, Put(Put(Forward(S[c.id].hi, c), "hi", S[c.id].hi), "pp", S[c.id].pp)), OkE)
      [] c.op = "interpto"  -> Done(Put(S, c.id, Put(Put(ToAxes(S[c.id].hi, c, S[c.id].pp), "hi", S[c.id].hi), "pp", S[c.id].pp)), OkE)
      [] c.op = "interppts" -> Done(Put(S, c.id, Put(Put(ToPoints(S[c.id].hi, c, S[c.id].pp), "hi", S[c.id].hi), "pp", S[c.id].pp)), OkE)
      [] c.op = "vert"  -> Done(Put(S, c.id, Put(Plain(S[c.from]), "vi", <<Plain(S[c.from]), c.type, c.method>>)), OkE)
      [] c.op = "vertto" -> LET w == S[c.id].vi IN
                           IF c.mode = "template" /\ ~HasVT(w[1], c.vts[c.to], Dims(w[1], c.tvar)) THEN Done(S, Err)
                           ELSE Done(Put(S, c.id, Put(ToVertical(w[1], c, w[2], w[3]), "vi", w)), OkE)
      [] c.op = "write" -> LET r == WriteResult(Plain(S[c.from]), c.cfg, c.type)
                           IN IF r.st = "ok" THEN Done(Put(S, "file:" \o c.file, r.ds), OkE) ELSE Done(S, Err)
      \* the environment may fail one write or read: then either the writer says so, or the file is complete all the same
      [] c.op = "writefault" -> IF c.env.hit = 1 /\ c.env.done = 0 THEN Done(Without(S, {"file:" \o c.file}), [st |-> "ok", hit |-> 1, done |-> 0])
                           ELSE Done(Put(S, "file:" \o c.file, IF c.type = "ncml" THEN Put(NcmlForm(Plain(S[c.from])), "kind", "ncml")
                                                                ELSE WriteResult(Plain(S[c.from]), EmptyFn, c.type).ds), [st |-> "ok", hit |-> c.env.hit, done |-> 1])
      [] c.op = "readfault" -> IF c.env.hit = 1 /\ c.env.done = 0 THEN Done(S, [st |-> "ok", hit |-> 1, done |-> 0])
                           ELSE Done(S, ReadObs("f" :> S["file:" \o c.file], [id |-> "f", var |-> c.var, mode |-> "raw"]) @@ [hit |-> c.env.hit, done |-> 1])
      [] c.op = "open"  -> Done(Put(S, c.id, S["file:" \o c.file]), OkE)
      [] c.op = "rw"    -> Done(Put(S, c.id, Put(S["file:" \o c.file], "rw", "file:" \o c.file)), OkE)
      [] c.op = "glob"  -> Done(S, GlobObs(c))
      [] c.op = "putfile" -> Done(Put(S, "file:" \o c.file, IF c.kind = "ncml" THEN Put(S["file:" \o c.ref], "kind", "ncml") ELSE [kind |-> "text"]), OkE)
      [] c.op = "save"  -> LET f == FormatFor(c.type, c.ext, "") IN
                           IF f = "none" THEN Done(S, Err)
                           ELSE IF f = "null" THEN Done(Put(S, "file:" \o c.file, [kind |-> "absent"]), OkE)
                           ELSE IF f = "ncml" THEN Done(Put(S, "file:" \o c.file, Put(NcmlForm(Plain(S[c.from])), "kind", "ncml")), OkE)
                           ELSE LET r == WriteResult(Plain(S[c.from]), EmptyFn, IF c.type \in NcTypes THEN c.type ELSE "netcdf4")
                                IN IF r.st = "ok" THEN Done(Put(S, "file:" \o c.file, Put(r.ds, "kind", "nc")), OkE) ELSE Done(S, Err)
      [] c.op = "detect" -> LET x == S["file:" \o c.file] IN
                           IF FormatFor(c.type, c.ext, x.kind) = x.kind /\ x.kind \in {"nc", "ncml"} THEN Done(Put(S, c.id, Plain(x)), OkE)
                           ELSE Done(Without(S, {c.id}), Err)
      [] c.op = "globopen" -> Done(Put(S, c.id, Joined([k \in 1..Len(c.files) |-> Plain(S["file:" \o c.files[k]])])), OkE)
      [] c.op = "sync"  -> Done(S, OkE)
      [] c.op = "put"   -> LET h == S[c.id]  r == PutSlice(h, S[h.rw], c)
                           IN IF r.st = "ok" THEN Done(Over(S, (h.rw :> r.ds) @@ (c.id :> Put(FileView(h, r.ds), "rw", h.rw))), OkE) ELSE Done(S, Err)
      [] c.op = "fill"  -> LET h == S[c.id]  r == FillFile(Plain(S[c.from]), Plain(h), c.tr)
                           IN Done(Over(S, (h.rw :> r.ds) @@ (c.id :> Put(FileView(h, r.ds), "rw", h.rw))), [st |-> r.st])
      [] c.op = "capi"  -> CStep(S, c)
      \* whatever the schedule, concurrent reads see what a single one sees
      [] c.op = "monitor" -> Done(S, MonitorObs(c))
      [] c.op = "threads" -> Done(S, OkE)
      [] c.op = "par"   -> Done(S, [st |-> "ok", res |-> TLCEval([k \in 1..Len(c.reads) |-> TLCEval([i \in 1..Len(c.reads[k]) |-> ReadObs(S, c.reads[k][i])])])])
      [] c.op = "forkread" -> Done(S, [st |-> "ok", own |-> TLCEval([i \in 1..Len(c.own) |-> ReadObs(S, c.own[i])]),
                           kids |-> TLCEval([k \in 1..Len(c.kids) |-> [st |-> "ok", res |-> TLCEval([i \in 1..Len(c.kids[k]) |-> ReadObs(S, c.kids[k][i])])]])])
      [] c.op = "extract" -> Done(Put(S, c.id, NewExtract(Plain(S[c.from]))), OkE)
      [] c.op = "ext"   -> LET r == ExtractOp(S[c.id], c) IN Done(Put(S, c.id, r.ds), [st |-> r.st])
=============================================================================
