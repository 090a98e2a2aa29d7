------------------------------ MODULE Registers ------------------------------
(* The mechanism behind the objects (C06, C07, C14, C17, C25): the C library    *)
(* keeps static pointers to the user's spectrum, to the arrays of the terms it  *)
(* works for and to the spectra of the B correction, a settings record and an   *)
(* automatic range; objects own arrays that come and go, and freed memory is    *)
(* reused for anything.  A run must be the function of the object's wavenumbers,*)
(* the spectrum registered last and the settings in force, write into the       *)
(* object's own arrays only and leave nothing of its own behind.  The constants *)
(* switch parts of the mechanism off: each of those designs must be rejected    *)
(* (they are defects this library has had).                                     *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS Repoint,  \* a run first points the library at the object's own arrays
          Keep,     \* what is registered is kept alive
          Refresh,  \* the automatic range is computed at every run
          Restore,  \* a calculation of the library's own gives the terms pointer back
          Forget,   \* spectra computed for a B correction are forgotten after it
          Blocks    \* blocks of memory (interchangeable)
CONSTANT None       \* no block
VARIABLES obj,   \* object -> 0 or [g: wavenumbers, a: array]
          mem,   \* block -> [st: "free"/"used", v: contents]
          tp,    \* terms the library works for: [g, a]
          pp,    \* block of the registered spectrum, 0 none
          user,  \* blocks of spectra the user still holds
          n,     \* number of points
          rng,   \* automatic range: the spectrum it was computed for
          bt,    \* block of the spectrum of the B correction, 0 none
          reg,   \* spectrum registered last (abstract)
          cur,   \* object whose terms were set or run last
          out    \* what the last run did
vars == <<obj, mem, tp, pp, user, n, rng, bt, reg, cur, out>>

Objs == {"o", "w"}
Grids == {1, 2}
Specs == {1, 2}
Junk == <<"junk">>
Zero == <<"zero">>
Spec_(s) == <<"spectrum", s>>
Nul == [g |-> 0, a |-> None]
NoRun == [ok |-> TRUE, why |-> ""]

Free(m) == {b \in Blocks : m[b].st = "free"}
Alloc(m, b, v) == [m EXCEPT ![b] = [st |-> "used", v |-> v]]
Release(m, b) == IF b = None THEN m ELSE [m EXCEPT ![b] = [st |-> "free", v |-> Junk]]
(* reads and writes of the library do not ask whose memory it is                  *)
Read(m, b) == IF b = None THEN Junk ELSE m[b].v

Init == /\ obj = [h \in Objs |-> Nul] /\ mem = [b \in Blocks |-> [st |-> "free", v |-> Junk]] /\ tp = Nul /\ pp = None /\ user = {}
        /\ n = 1 /\ rng = Junk /\ bt = None /\ reg = 0 /\ cur = "" /\ out = NoRun

SetTerms(h, g) ==
  \E b \in Free(mem) :
    /\ mem' = Alloc(Release(mem, obj[h].a), b, Zero)
    /\ obj' = [obj EXCEPT ![h] = [g |-> g, a |-> b]]
    /\ tp' = [g |-> g, a |-> b] /\ cur' = h
    /\ out' = NoRun
    /\ UNCHANGED <<pp, user, n, rng, bt, reg>>
Drop(h) ==
  /\ obj[h].a # None
  /\ mem' = Release(mem, obj[h].a) /\ obj' = [obj EXCEPT ![h] = Nul] /\ out' = NoRun /\ cur' = (IF cur = h THEN "" ELSE cur)
  /\ UNCHANGED <<tp, pp, user, n, rng, bt, reg>>
(* the user makes an array of a spectrum and registers it                          *)
Register(s) ==
  \E b \in Free(mem) :
    /\ mem' = LET m == Alloc(mem, b, Spec_(s)) IN IF Keep /\ pp # None /\ pp \notin user THEN Release(m, pp) ELSE m
    /\ pp' = b /\ reg' = s /\ user' = {b} \union user
    /\ rng' = rng
    /\ out' = NoRun
    /\ UNCHANGED <<obj, tp, n, bt, cur>>
(* the user discards the arrays                                                     *)
Discard(b) ==
  /\ b \in user
  /\ user' = user \ {b}
  /\ mem' = IF Keep /\ b = pp THEN mem ELSE Release(mem, b)
  /\ out' = NoRun
  /\ UNCHANGED <<obj, tp, pp, n, rng, bt, reg, cur>>
SetN(x) == n' = x /\ out' = NoRun /\ UNCHANGED <<obj, mem, tp, pp, user, rng, bt, reg, cur>>

Result(g, p, x, r) == <<"terms", g, p, x, r>>
Right(h) == Result(obj[h].g, Spec_(reg), n, Spec_(reg))
Judged(h, m) == IF Read(m, obj[h].a) # Right(h) THEN [ok |-> FALSE, why |-> "another result"]
                ELSE IF \E b \in Blocks \ {obj[h].a} : m[b] # mem[b] THEN [ok |-> FALSE, why |-> "wrote elsewhere"] ELSE NoRun
Run(h) ==
  /\ obj[h].a # None /\ reg # 0
  /\ LET t == IF Repoint THEN obj[h] ELSE tp
         r == IF Refresh \/ rng = Junk THEN Read(mem, pp) ELSE rng
         m == IF t.a = None THEN mem ELSE [mem EXCEPT ![t.a].v = Result(t.g, Read(mem, pp), n, r)]
     IN mem' = m /\ tp' = t /\ cur' = h /\ rng' = (IF Refresh THEN rng ELSE r) /\ out' = Judged(h, m)
  /\ UNCHANGED <<obj, pp, user, n, bt, reg>>
(* an assembled spectrum of the library's own: terms of its own for the while         *)
Own(g) ==
  /\ reg # 0
  /\ \E b \in Free(mem) :
       /\ tp' = IF Restore THEN tp ELSE [g |-> g, a |-> b]
       /\ out' = IF Result(g, Read(mem, pp), n, Read(mem, pp)) = Result(g, Spec_(reg), n, Spec_(reg)) THEN NoRun ELSE [ok |-> FALSE, why |-> "another result"]
       /\ mem' = Release(Alloc(mem, b, Zero), b)
  /\ UNCHANGED <<obj, pp, user, n, rng, bt, reg, cur>>
(* run of the terms the library works for, without an object (C interface)             *)
RunAgain ==
  /\ reg # 0 /\ cur # ""
  /\ LET m == IF tp.a = None THEN mem ELSE [mem EXCEPT ![tp.a].v = Result(tp.g, Read(mem, pp), n, Read(mem, pp))]
     IN mem' = m /\ out' = Judged(cur, m)
  /\ UNCHANGED <<obj, tp, pp, user, n, rng, bt, reg, cur>>
(* a B correction of spectra computed for it                                            *)
RunB ==
  /\ reg # 0
  /\ \E b \in Free(mem) :
       LET m == IF bt = None THEN Alloc(mem, b, <<"one-loop", Read(mem, pp), n>>) ELSE mem
           x == IF bt = None THEN b ELSE bt
       IN /\ out' = IF Read(m, x) = <<"one-loop", Spec_(reg), n>> THEN NoRun ELSE [ok |-> FALSE, why |-> "B of another spectrum"]
          /\ mem' = IF bt = None THEN Release(m, x) ELSE m
          /\ bt' = IF Forget THEN None ELSE x
  /\ UNCHANGED <<obj, tp, pp, user, n, rng, reg, cur>>
(* freed memory is used by somebody else                                                  *)
Scribble == \E b \in Free(mem) : mem' = Release(mem, b) /\ mem' # mem /\ out' = NoRun /\ UNCHANGED <<obj, tp, pp, user, n, rng, bt, reg, cur>>

Next == \/ \E h \in Objs : (\E g \in Grids : SetTerms(h, g)) \/ Drop(h) \/ Run(h)
        \/ \E s \in Specs : Register(s)
        \/ \E b \in Blocks : Discard(b)
        \/ \E x \in {1, 2} : SetN(x)
        \/ \E g \in Grids : Own(g)
        \/ RunAgain \/ RunB \/ Scribble
Spec == Init /\ [][Next]_vars

Interchange == Permutations(Blocks)
RunsRight == out.ok
(* memory: nobody's block is anybody else's, and nothing is left behind                      *)
Held == {obj[h].a : h \in {h \in Objs : obj[h].a # None}} \union user \union (IF Keep THEN {pp} \ {None} ELSE {})
NothingLeft == {b \in Blocks : mem[b].st = "used"} = Held
Separate == \A h, g \in Objs : h # g /\ obj[h].a # None => obj[h].a # obj[g].a
PointsAtLife == Keep => (pp = None \/ (mem[pp].st = "used" /\ mem[pp].v = Spec_(reg)))
=============================================================================
