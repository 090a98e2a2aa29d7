SPECIFICATION Spec
VIEW View
INVARIANT LastGivenWins
INVARIANT GroupIsMembers
INVARIANT Idempotent
PROPERTY OnlyNamed
CHECK_DEADLOCK FALSE
CONSTANT Update <- ForgetUpdate
