--------------------------------- MODULE Gen ---------------------------------
(* Writes the behaviours of a suite, one per line, for execution.             *)
EXTENDS SuiteObj
(* quiet whatever is asked: the corners, and some of the other suites                                  *)
QuietOnes == Map(LAMBDA c : CornerBeh(c, 1), Classes) \o Thin(SuiteC01, Pick(10, 80)) \o Thin(SuiteC02, Pick(4, 40)) \o Thin(SuiteC03, 2) \o Thin(SuiteC26, Pick(4, 20)) \o Thin(SuiteC24, Pick(3, 10)) \o Thin(SuiteC11, Pick(4, 30))
             \o Thin(SuiteC20, Pick(3, 20)) \o Thin(SuiteC22, Pick(3, 20)) \o Thin(SuiteC14, Pick(3, 20)) \o Thin(SuiteC19, Pick(4, 20)) \o Thin(SuiteC07, Pick(3, 20))
Suite ==
  LET s == Env("VT_SUITE") IN
  CASE s = "C01" -> SuiteC01 [] s = "C02" -> SuiteC02 [] s = "C03" -> SuiteC03
    [] s = "C11" -> SuiteC11 [] s = "C12" -> SuiteC12 [] s = "C13" -> SuiteC13 [] s = "C14" -> SuiteC14
    [] s = "C07" -> SuiteC07 [] s = "C08" -> SuiteC08 [] s = "C09" -> SuiteC09 [] s = "C10" -> SuiteC10
    [] s = "C04" -> SuiteC04 [] s = "C05" -> SuiteC05 [] s = "C16" -> SuiteC16 \o QuietOnes [] s = "C17" -> SuiteC17 [] s = "C18" -> SuiteC18 [] s = "C19" -> SuiteC19 [] s = "C25" -> SuiteC25
    [] s = "C06" -> SuiteC06 [] s = "C15" -> SuiteC15 [] s = "C24" -> SuiteC24 [] s = "C26" -> SuiteC26
    [] s = "C20" -> SuiteC20 [] s = "C21" -> SuiteC21 [] s = "C22" -> SuiteC22 [] s = "C23" -> SuiteC23
    \* some of every suite, to be run with all accesses to memory checked
    [] s = "mem1" -> Thin(SuiteC01, Pick(24, 80)) \o Thin(SuiteC02, Pick(10, 40)) \o Thin(SuiteC03, 6) \o Thin(SuiteC26, Pick(6, 20)) \o Thin(SuiteC24, 5) \o Thin(SuiteC15, Pick(6, 30))
    [] s = "mem2" -> Thin(SuiteC11, Pick(8, 30)) \o Thin(SuiteC12, Pick(5, 20)) \o Thin(SuiteC13, Pick(5, 20)) \o Thin(SuiteC14, Pick(6, 30)) \o Thin(SuiteC20, Pick(5, 20)) \o Thin(SuiteC22, Pick(5, 20)) \o Thin(SuiteC23, Pick(4, 20)) \o Thin(SuiteC10, 3)
    [] s = "mem3" -> Thin(SuiteC06, Pick(10, 200)) \o Thin(SuiteC17, Pick(8, 100)) \o Thin(SuiteC04, Pick(4, 30)) \o Thin(SuiteC18, Pick(8, 60))
    [] s = "mem4" -> Thin(SuiteC19, Pick(8, 27)) \o Thin(SuiteC16, Pick(8, 60)) \o Thin(SuiteC07, Pick(6, 30)) \o Thin(SuiteC08, Pick(4, 30)) \o Thin(SuiteC09, Pick(3, 20))
    [] s = "share" -> SuiteShare
ASSUME LET p == Suite IN \A j \in 1 .. Len(p) : JWrite(Env("VT_PLAN"), p[j])
=============================================================================
