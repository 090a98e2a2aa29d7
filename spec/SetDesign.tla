------------------------------ MODULE SetDesign ------------------------------
(* The settings as a design of their own (C04, C05): calls by name and by      *)
(* group on a few watched settings, explored completely.  `given` remembers    *)
(* what each setting was given, field by field, since it was last reset: the   *)
(* operators that validate the real library (Settings) must agree with it.     *)
EXTENDS Settings
VARIABLES set, given, last
vars == <<set, given, last>>

Watched == {"gamma1_1loop_q", "gamma3_tree_q", "gamma2_tree_mu", "B_pk_lin", "B_uvcutoff"}
GivenNone == [n |-> <<>>, r |-> <<>>, i |-> <<>>]
(* the fields a setting has                                                     *)
HasN(s) == s \notin RangeNames /\ s \in PrecNames
HasR(s) == s \notin MuNames /\ s \in PrecNames
Init == set = [s \in Watched |-> Default(s)] /\ given = [s \in Watched |-> GivenNone] /\ last = <<"start", {}>>

CallNames == {"gamma1_1loop_q", "gamma3_tree_q", "gamma2_tree_mu", "B_q", "B_pk_lin", "spectrum_1loop_q", "spectrum_2loop_q", "all_q", "all_mu", "all", "all_pklin", "bias_1loop_q"}
NoRange == <<Flt(1), Flt(-1)>>
Ranges_ == {NoRange, <<D("0.02"), Flt(1)>>}
CallSpec == {<<n, r, i>> : n \in {0, 7}, r \in Ranges_, i \in {"other", "lin", "poly"}}
Overlay(g, s, n, r, i) ==
  LET x == [n |-> IF HasN(s) /\ n > 0 THEN <<n>> ELSE <<>>, r |-> IF HasR(s) /\ r # NoRange THEN r ELSE <<>>, i |-> IF i \in Modes THEN <<i>> ELSE <<>>]
  IN IF x = GivenNone THEN IF s \in PkLinNames THEN g ELSE GivenNone
     ELSE [f \in {"n", "r", "i"} |-> IF x[f] = <<>> THEN g[f] ELSE x[f]]
Call(name, c) ==
  /\ set' = SetPrec(set, name, c[1], c[2][1], c[2][2], c[3])
  /\ given' = [s \in Watched |-> IF s \in Members(name) THEN Overlay(given[s], s, c[1], c[2], c[3]) ELSE given[s]]
  /\ last' = <<"call", Members(name)>>
Cut(name, uv) ==
  /\ set' = SetCut(set, name, uv)
  /\ given' = [s \in Watched |-> IF s = "B_uvcutoff" /\ name \in {"B", "all"} THEN [GivenNone EXCEPT !.n = <<uv>>] ELSE given[s]]
  /\ last' = <<"cut", {"B_uvcutoff"}>>
Clear == set' = [s \in Watched |-> Default(s)] /\ given' = [s \in Watched |-> GivenNone] /\ last' = <<"clear", Watched>>
Next == (\E name \in CallNames : \E c \in CallSpec : Call(name, c)) \/ (\E name \in {"B", "all", "A_1loop"} : \E uv \in {D("0.5"), D("0.2")} : Cut(name, uv)) \/ Clear
Spec == Init /\ [][Next]_vars
View == <<set, given>>

(* ---- properties -------------------------------------------------------------- *)
(* every setting is its default overlaid with what it was given since             *)
Meant(s) ==
  LET d == Default(s)  g == given[s] IN
  CASE s \in PkLinNames -> IF g.i = <<>> THEN d ELSE g.i[1]
    [] s \in PrecNames -> [n |-> IF g.n = <<>> THEN d.n ELSE g.n[1], min |-> IF g.r = <<>> THEN d.min ELSE g.r[1], max |-> IF g.r = <<>> THEN d.max ELSE g.r[2],
                           ipl |-> IF g.i = <<>> THEN d.ipl ELSE g.i[1]]
    [] OTHER -> IF g.n = <<>> THEN d ELSE g.n[1]
LastGivenWins == \A s \in Watched : JText(set[s]) = JText(Meant(s))
(* a call reaches the settings it names and no others                              *)
OnlyNamed == [][\A s \in Watched : s \notin last'[2] => JText(set'[s]) = JText(set[s])]_vars
(* a group is the sequence of its members, in any order                            *)
GroupIsMembers ==
  \A g \in {"all_q", "all", "spectrum_2loop_q"} : \A c \in {<<7, NoRange, "other">>, <<0, NoRange, "other">>, <<0, <<D("0.02"), Flt(1)>>, "lin">>} :
    LET ms == SetSeq(Members(g) \intersect Watched)
        apply(z, m) == SetPrec(z, m, c[1], c[2][1], c[2][2], c[3])
        whole == JText(SetPrec(set, g, c[1], c[2][1], c[2][2], c[3]))
    IN JText(FoldLeft(apply, set, ms)) = whole /\ JText(FoldLeft(apply, set, Reverse(ms))) = whole
(* repeating a call changes nothing more                                           *)
Idempotent == \A name \in {"gamma1_1loop_q", "all_mu", "all_q"} : \A c \in CallSpec :
    LET once == SetPrec(set, name, c[1], c[2][1], c[2][2], c[3]) IN JText(SetPrec(once, name, c[1], c[2][1], c[2][2], c[3])) = JText(once)
(* faulty designs the properties must reject: a call that specifies nothing keeps   *)
(* the setting; a call with a range forgets the number of points                     *)
KeepUpdate(s, old, n, min, max, ipl) ==
  [n |-> IF s \notin RangeNames /\ n > 0 THEN n ELSE old.n, min |-> IF s \notin MuNames /\ max >= min THEN min ELSE old.min,
   max |-> IF s \notin MuNames /\ max >= min THEN max ELSE old.max, ipl |-> IF ipl \in Modes THEN ipl ELSE old.ipl]
ForgetUpdate(s, old, n, min, max, ipl) ==
  LET x == KeepUpdate(s, old, n, min, max, ipl)
  IN IF (s \in RangeNames \/ n <= 0) /\ (s \in MuNames \/ max < min) /\ ipl \notin Modes THEN Default(s)
     ELSE IF s \notin MuNames /\ max >= min /\ n <= 0 THEN [x EXCEPT !.n = Default(s).n] ELSE x
(* groups reach every precision setting, and nothing that is none                   *)
ASSUME Members("all") = PrecNames /\ Members("all_pklin") = PkLinNames /\ Members("all_q") \union Members("all_mu") = PrecNames
ASSUME \A g \in GroupNames : Members(g) \subseteq PrecNames \union PkLinNames
=============================================================================
