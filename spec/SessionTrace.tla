----------------------------- MODULE SessionTrace -----------------------------
(* Judges recorded histories of real simulation objects with Session.tla.    *)
(* Consts.refs[key] is what a new object in a new process shows after the    *)
(* run named by key (with radiative results computed in that same run).      *)
EXTENDS Session, Fix, Json, IOUtils
VARIABLES t, l, s, bad

Refs == TLCGet(77).consts.refs
Queries == TLCGet(77).consts.queries
FT == 100          \* frequencies, in 1e-8
LT == 100          \* losses, in 1e-9
UT == 1000         \* unbalance, in 1e-8
MT == 2000         \* field intensities, in 1e-8

TraceStart(tr) == NewState(2)

After(st, e) ==
  CASE e.op = "new"     -> DoNew(st, e.o, e.kind, e.st, e.tr)
    [] e.op = "run"     -> DoRun(st, e.o, e.key, e.im)
    [] e.op = "bad"     -> DoRunBad(st, e.o)
    [] e.op = "runim"   -> DoRunIm(st, e.o)
    [] e.op = "backend" -> DoBackend(st, e.b)
    [] OTHER            -> st

Look(st, e) ==
  LET ob == st.obj[e.o]
      r  == Refs[ob.cur]
  IN << <<"shown-object", HasRun(st, e.o)>>,
        <<"frequencies", CloseM(e.freqs, r.freqs, FT)>>,
        <<"parities", e.symm = r.symm>>,
        <<"modes", CloseM(e.modes, r.modes, MT)>>,
        <<"kpoints", e.kpts = r.kpts>>,
        <<"losses", IF ob.im THEN CloseM(e.fim, r.fim, LT) ELSE e.fim = <<>> >>,
        <<"unbalance", IF ob.im THEN CloseM(e.unb, r.unb, UT) ELSE e.unb = <<>> >>,
        <<"couplings", IF ob.im THEN CloseM(e.coup, r.coup, MT) ELSE e.coup = <<>> >>,
        <<"channels", IF ob.im THEN e.chan = r.chan ELSE e.chan = <<>> >> >>

Clauses(st, e) ==
  CASE e.op = "look"    -> Look(st, e)
    [] e.op = "new"     -> << <<"new-accepted", e.ok>>,
                              <<"new-shows-nothing", e.empty>> >>
    [] e.op = "run"     -> << <<"run-accepted", e.ok>>,
                              <<"arguments-untouched", e.same>> >>
    [] e.op = "bad"     -> << <<"bad-run-rejected", ~e.ok>>,
                              <<"arguments-untouched", e.same>> >>
    [] e.op = "runim"   -> << <<"losses-enabled", CanRunIm(st, e.o)>>,
                              <<"losses-accepted", e.ok>> >>
    [] e.op = "query"   -> << <<"query-accepted", e.ok>>,
                              <<"query-value", CloseV(e.val, Queries[e.key], MT)>> >>
    [] OTHER            -> << <<"call-accepted", e.ok>> >>

INSTANCE TraceLoop WITH S0 <- TraceStart, Clauses <- Clauses, Step <- After
=============================================================================
