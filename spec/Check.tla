-------------------------------- MODULE Check --------------------------------
(* Validation of recorded behaviours against the state machine: one chain of  *)
(* states per behaviour; a step exists for every recorded event the machine    *)
(* accepts, and a rejected one ends in a state with bad # <<>>.                *)
EXTENDS Machine, FiniteSets
VARIABLES b, i, st, bad
vars == <<b, i, st, bad>>

Trace == JRead(Env("VT_TRACE"))
N == Len(Trace)

(* ---- what is returned ------------------------------------------------------ *)
VecOf(x) == IF IsNum(x) THEN <<x>> ELSE x
NumOk(x, e, sc, tol) ==
  LET v == VecOf(x) IN Len(v) = Len(e) /\ \A j \in 1 .. Len(e) : Near(v[j], e[j], Max2(sc[j], Abs(e[j])), tol)
SameVec(v, e) == Len(v) = Len(e) /\ \A j \in 1 .. Len(e) : Eq(v[j], e[j])
RetBad(ret, r) ==
  CASE ret[1] = "any" -> <<>>
    [] ret[1] = "none" -> IF Nothing(r) THEN <<>> ELSE <<"returned a value where there is none">>
    [] ret[1] = "num" -> IF Nothing(r) \/ ~NumOk(r, ret[2], ret[3], ret[4])
                         THEN <<"returned " \o Txt(r) \o " expected " \o Txt(ret[2])>> ELSE <<>>
    [] ret[1] = "is" -> IF JText(r) = JText(ret[2]) THEN <<>> ELSE <<"returned " \o Txt(r) \o " expected " \o Txt(ret[2])>>
    [] ret[1] = "set" -> IF {r[j] : j \in 1 .. Len(r)} = ret[2] /\ Len(r) = Cardinality(ret[2]) THEN <<>> ELSE <<"returned " \o Txt(r) \o " expected " \o Txt(ret[2])>>
    [] ret[1] = "nums" -> IF Len(r) = Len(ret[2]) /\ \A j \in 1 .. Len(r) : SameVec(r[j], ret[2][j]) THEN <<>> ELSE <<"returned other columns">>
    [] ret[1] = "rec" -> IF DOMAIN r = DOMAIN ret[2] /\ \A c \in DOMAIN r : SameVec(r[c], ret[2][c]) THEN <<>> ELSE <<"returned other columns">>

(* ---- contents of every live object ------------------------------------------- *)
Held(s, h, c) == h \in DOMAIN s.obj /\ c \in Cols(s, h)
Label(h, c) == "column " \o c \o " of " \o h
(* One column: the recorded contents must be the expected ones; within the        *)
(* tolerance they then become the contents.                                       *)
CheckCol(acc, h, c, ds, old, tol) ==
  LET s == acc.s
      v == Col(s, h, c)
      e == Contents(s, v)
      f == MaxAbs(e) * D("1e-3")
      was == Contents(old, Col(old, h, c))
      d == ds[1]
      close == Held(old, h, c) /\ Col(old, h, c).s = v.s /\ Len(was) = Len(e) /\ \A j \in 1 .. Len(e) : Near(was[j], e[j], Max2(Abs(e[j]), f), tol)
      ok == d.s = v.s /\ Len(d.v) = Len(e) /\ \A j \in 1 .. Len(e) : Near(d.v[j], e[j], Max2(Abs(e[j]), f), tol)
      unchanged == Held(old, h, c) /\ LET w == Col(old, h, c) IN w.s = v.s /\ SameVec(Contents(old, w), e)
  IN IF ds # <<>>
     THEN IF ok THEN [acc EXCEPT !.s = Write(s, v, d.v)]
          ELSE [acc EXCEPT !.bad = Append(@, Label(h, c) \o " is " \o Txt(d.v) \o " of shape " \o Txt(d.s) \o ", expected " \o Txt(e) \o " of shape " \o Txt(v.s))]
     ELSE IF unchanged THEN acc
     ELSE IF close THEN [acc EXCEPT !.s = Write(s, v, was)]
     ELSE [acc EXCEPT !.bad = Append(@, Label(h, c) \o " did not change, expected " \o Txt(e))]
CheckObj(acc, h, ev, old, tol) ==
  LET put(z, c) == CheckCol(z, h, c, SelectSeq(ev.d, LAMBDA x : x.h = h /\ x.c = c), old, tol)
  IN FoldLeft(put, acc, ColSeq(acc.s, h))
Contents_(s, ev, old, tol) ==
  LET z == FoldLeft(LAMBDA acc, h : CheckObj(acc, h, ev, old, tol), [s |-> s, bad |-> <<>>], SetSeq(DOMAIN s.obj))
      extra == SelectSeq(ev.d, LAMBDA x : ~Held(s, x.h, x.c))
      gone == SelectSeq(ev.g, LAMBDA x : Held(s, x[1], x[2]))
  IN [z EXCEPT !.bad = @ \o Tup([j \in 1 .. Len(extra) |-> Label(extra[j].h, extra[j].c) \o " appeared"])
                         \o Tup([j \in 1 .. Len(gone) |-> Label(gone[j][1], gone[j][2]) \o " disappeared"])]

(* ---- messages, files, memory (C16, C17, C25) ------------------------------------ *)
Dumps == {"debug_terms_spectrum_1loop.dat", "debug_terms_spectrum_2loop.dat", "debug_spectra_B.dat"}
(* what the dump of a run holds, by columns: the values of the object as recorded,      *)
(* or the spectra in use; only the wavenumbers of the one-loop spectra of other runs      *)
DumpOf(s, op, f) ==
  LET cols(cs) == Tup([j \in 1 .. Len(cs) |-> Get(s, op.h, cs[j])])
      cls == IF op.op = "run" THEN s.obj[op.h].cls ELSE "" IN
  CASE f = "debug_terms_spectrum_1loop.dat" /\ cls = "Spectrum1Loop" -> cols(<<"k", "gamma1a_1loop", "gamma1b_1loop", "pk_gamma2_tree_tree">>)
    [] f = "debug_terms_spectrum_1loop.dat" -> << IF op.op = "cpk" THEN Raw(s, op.k) ELSE s.sp.tab.k >>
    [] f = "debug_terms_spectrum_2loop.dat" -> cols(<<"k", "gamma1a_1loop", "gamma1a_2loop", "gamma1b_1loop", "gamma1b_2loop", "pk_gamma2_tree_tree", "pk_gamma2_tree_1loop", "pk_gamma2_1loop_1loop", "pk_gamma3_tree">>)
    [] f = "debug_spectra_B.dat" -> IF cls = "B1Loop" THEN << s.sp.tab.k, s.sp.tab.p, s.sp.tab.p >> ELSE << s.sp.tab.k >>
DumpsOf(s, op) ==       \* the files a run writes at the level of debugging
  IF op.op = "cpk" THEN {"debug_terms_spectrum_1loop.dat"} ELSE IF op.op # "run" THEN {} ELSE
  CASE s.obj[op.h].cls = "Spectrum1Loop" -> {"debug_terms_spectrum_1loop.dat"} [] s.obj[op.h].cls = "Spectrum2Loop" -> {"debug_terms_spectrum_2loop.dat"}
    [] s.obj[op.h].cls = "B1Loop" -> {"debug_spectra_B.dat"} [] s.obj[op.h].cls = "B2Loop" -> {"debug_spectra_B.dat", "debug_terms_spectrum_1loop.dat"} [] OTHER -> {}
Printed(x, e) == Near(x, e, 1 + D("1e-6") * Abs(e), D("6e-7"))
DumpBad(s, op, d) ==
  LET e == DumpOf(s, op, d.f)
      n == Len(e[1])
      width == CASE d.f = "debug_terms_spectrum_1loop.dat" -> 4 [] d.f = "debug_terms_spectrum_2loop.dat" -> 9 [] OTHER -> 3
      ok == d.n = n /\ Len(d.v) = width * n /\ \A j \in 1 .. Len(e) : \A t \in 1 .. n : Printed(d.v[(j - 1) * n + t], e[j][t])
  IN IF ok THEN <<>> ELSE <<d.f \o " does not hold the values of the run: " \o Txt(d.v) \o " expected " \o Txt(e)>>
FilesBad(s, old, op, ev) ==
  LET fs == {ev.files[j] : j \in 1 .. Len(ev.files)} IN
  IF old.verb # "debug" \/ op.op \notin {"run", "cpk"} \/ ev.exc # "" THEN <<>>
  ELSE IF fs # DumpsOf(s, op) THEN <<"wrote files " \o Txt(fs) \o " at level debug, expected " \o Txt(DumpsOf(s, op))>>
  ELSE IF s.sp.m # 0 \/ s.sp.l # 0 \/ fs = {} THEN <<>> ELSE FoldLeft(LAMBDA z, d : z \o DumpBad(s, op, d), <<>>, ev.dump)
SideBad(old, new, op, ev) ==
  LET fs == {ev.files[j] : j \in 1 .. Len(ev.files)}
      quiet == old.verb = "quiet" /\ new.verb = "quiet"
  IN (IF quiet /\ ev.out > 0 THEN <<"printed at level quiet">> ELSE <<>>)
     \o (IF fs # {} /\ ~(old.verb = "debug" /\ op.op \in {"run", "cpk"} /\ fs \subseteq Dumps) THEN <<"wrote files " \o Txt(fs) \o " at level " \o old.verb>> ELSE <<>>)
     \o (IF op.op = "run" /\ old.verb = "info" /\ ev.exc = "" /\ ev.out = 0 THEN <<"printed nothing at level " \o old.verb>> ELSE <<>>)
     \o (IF ev.gd # 0 THEN <<"wrote outside an output array">> ELSE <<>>)
     \o (IF ev.st[4] # 0 THEN <<"freed a block twice">> ELSE <<>>)
     \o (IF ev.st[5] # 0 THEN <<"freed a block it did not allocate">> ELSE <<>>)
     \o (IF ev.st[6] # 0 THEN <<"wrote outside a block">> ELSE <<>>)
     \o (IF ev.st[7] # 0 THEN <<"wrote to a freed block">> ELSE <<>>)
     \o (IF ev.st[8] # 0 THEN <<"memory changed by one thread and used by another" \o (IF "race" \in DOMAIN ev THEN ": " \o ev.race ELSE "")>> ELSE <<>>)

(* ---- one event -------------------------------------------------------------------- *)
Judge(s, op, ev) ==
  IF ev.broken THEN [st |-> s, bad |-> <<ev.exc>>, dev |-> 0]
  ELSE LET r == Apply(s, op, ev)
           ex == IF r.exc = ev.exc THEN <<>> ELSE IF r.exc = "" THEN <<"raised " \o ev.exc \o ": " \o ev.msg>> ELSE <<"did not raise " \o r.exc \o " but " \o (IF ev.exc = "" THEN "returned" ELSE ev.exc)>>
       IN IF ex # <<>> THEN [st |-> s, bad |-> ex, dev |-> 0]
          ELSE LET c == Contents_(r.st, ev, s, r.tol)
                   rb == IF r.exc = "" THEN RetBad(r.ret, ev.ret) ELSE <<>>
               IN [st |-> c.s, bad |-> r.bad \o rb \o c.bad \o SideBad(s, r.st, op, ev) \o FilesBad(c.s, s, op, ev), dev |-> r.dev]

Init == b \in 1 .. N /\ i = 0 /\ st = Init0 /\ bad = <<>>
Next ==
  /\ bad = <<>>
  /\ i < Len(Trace[b].ev)
  /\ i' = i + 1
  /\ b' = b
  /\ LET j == Judge(st, Trace[b].ops[i + 1], Trace[b].ev[i + 1])
     IN st' = j.st /\ bad' = j.bad /\ (Env("VT_DEV") = "" \/ JWrite(Env("VT_DEV"), <<Trace[b].id, i + 1, Trace[b].ops[i + 1].op, j.dev>>))
Spec == Init /\ [][Next]_vars

(* every recorded event is one the machine accepts                                       *)
Accepted == bad = <<>>
View == <<b, i>>
Report == [behaviour |-> Trace[b].id, number |-> b, step |-> i, operation |-> IF i = 0 THEN "" ELSE JText(Trace[b].ops[i]), fails |-> bad]
Note == bad = <<>> \/ JWrite(Env("VT_FAILS"), [b |-> b, i |-> i, id |-> Trace[b].id, op |-> Trace[b].ops[i], bad |-> bad])
=============================================================================
