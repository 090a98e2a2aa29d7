------------------------------ MODULE Settings ------------------------------
(* The settings of the library (properties C04, C05): every calculation has  *)
(* precision settings [n, min, max, ipl], an interpolation mode for its       *)
(* linear-spectrum column and a cutoff for its dispersion column; all of them *)
(* are addressed by name or through a group name.                             *)
EXTENDS F64, Sequences

Prec(n, min, max) == [n |-> n, min |-> D(min), max |-> D(max), ipl |-> "poly"]

QNames == { "gamma1_1loop_q", "gamma1_2loop_q", "gamma2_tree_q", "gamma2d_1loop_q", "gamma2t_1loop_q",
            "bias_1loop_q", "A_1loop_q", "A_2loop_I_q", "B_q" }
RangeNames == { "gamma3_tree_q", "A_2loop_II_III_q" }      \* no number of points
MuNames == { "gamma2_tree_mu", "bias_1loop_mu", "A_1loop_mu", "A_2loop_I_mu", "B_mu" }
PkLinNames == { "spectrum_1loop_pk_lin", "spectrum_2loop_pk_lin", "bias_1loop_pk_lin", "bispectrum_1loop_pk_lin",
                "A_1loop_pk_lin", "A_2loop_pk_lin", "B_pk_lin" }
CutNames == { "spectrum_1loop", "spectrum_2loop", "bispectrum_1loop", "bias_1loop", "A_1loop", "A_2loop", "B" }
PrecNames == QNames \union RangeNames \union MuNames
CutOf(c) == c \o "_uvcutoff"
Names == PrecNames \union PkLinNames \union { CutOf(c) : c \in CutNames }

Default(s) ==
  CASE s = "gamma1_1loop_q"  -> Prec(600, "5e-4", "10")
    [] s = "gamma1_2loop_q"  -> Prec(500, "5e-4", "10")
    [] s = "gamma2_tree_q"   -> Prec(200, "5e-4", "10")
    [] s = "gamma2d_1loop_q" -> Prec(100, "5e-4", "10")
    [] s = "gamma2t_1loop_q" -> Prec(100, "5e-4", "10")
    [] s = "gamma3_tree_q"   -> Prec(0, "5e-4", "10")
    [] s = "bias_1loop_q"    -> Prec(2000, "-1", "-1")
    [] s = "A_1loop_q"       -> Prec(2000, "-1", "-1")
    [] s = "A_2loop_I_q"     -> Prec(300, "5e-4", "10")
    [] s = "A_2loop_II_III_q" -> Prec(0, "5e-4", "10")
    [] s = "B_q"             -> Prec(600, "5e-4", "10")
    [] s \in {"bias_1loop_mu", "A_1loop_mu"} -> Prec(20, "-1", "1")
    [] s \in MuNames         -> Prec(10, "-1", "1")
    [] s \in PkLinNames      -> "poly"
    [] OTHER                 -> D("0.5")
Defaults == [s \in Names |-> Default(s)]

(* Groups: a name that is not a setting itself stands for a set of names.      *)
Group(g) ==
  CASE g = "all"              -> {"all_q", "all_mu"}
    [] g = "all_q"            -> {"spectrum_2loop_q", "bias_1loop_q", "A_1loop_q", "A_2loop_q", "B_q"}
    [] g = "all_mu"           -> MuNames
    [] g = "spectrum_1loop_q" -> {"gamma1_1loop_q", "gamma2_tree_q"}
    [] g = "spectrum_2loop_q" -> {"gamma1_1loop_q", "gamma1_2loop_q", "gamma2_tree_q", "gamma2_1loop_q", "gamma3_tree_q"}
    [] g = "gamma2_1loop_q"   -> {"gamma2d_1loop_q", "gamma2t_1loop_q"}
    [] g = "A_2loop_q"        -> {"A_2loop_I_q", "A_2loop_II_III_q"}
    [] g = "all_pklin"        -> PkLinNames
    [] OTHER                  -> {g}
GroupNames == {"all", "all_q", "all_mu", "spectrum_1loop_q", "spectrum_2loop_q", "gamma2_1loop_q", "A_2loop_q", "all_pklin"}
Expand(G) == UNION { Group(x) : x \in G }
Members(g) == Once("members " \o g, Expand(Expand(Expand(Expand({g})))))     \* four levels are enough: Group is the identity on settings

(* One call: fields given are updated, none given means default.  The number   *)
(* of points is no field of a range setting, the range none of a cosine one.   *)
Modes == {"poly", "lin"}
Update(s, old, n, min, max, ipl) ==
  LET hasN == s \notin RangeNames /\ n > 0
      hasR == s \notin MuNames /\ max \geq min
      hasI == ipl \in Modes
  IN IF ~hasN /\ ~hasR /\ ~hasI THEN Default(s)
     ELSE [n   |-> IF hasN THEN n ELSE old.n,
           min |-> IF hasR THEN min ELSE old.min,
           max |-> IF hasR THEN max ELSE old.max,
           ipl |-> IF hasI THEN ipl ELSE old.ipl]
SetPrec(set, name, n, min, max, ipl) ==
  LET ms == Members(name)
  IN [s \in DOMAIN set |->
       IF s \notin ms THEN set[s]
       ELSE IF s \in PkLinNames THEN IF ipl \in Modes THEN ipl ELSE set[s]
       ELSE Update(s, set[s], n, min, max, ipl)]
SetCut(set, name, uv) ==
  LET ms == IF name = "all" THEN { CutOf(c) : c \in CutNames } ELSE {CutOf(name)}
  IN [s \in DOMAIN set |-> IF s \in ms THEN uv ELSE set[s]]
=============================================================================
