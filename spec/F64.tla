------------------------------- MODULE F64 -------------------------------
(* IEEE double arithmetic for TLC.  The operators are declared here and     *)
(* evaluated by spec/java/F64Impl.java (one Java primitive each); numbers   *)
(* are TLC integers or doubles, "/" always gives a double, D("1.5e-3") is a *)
(* decimal literal.  Everything built from them is TLA+.                    *)
LOCAL INSTANCE TLC
LOCAL SE == INSTANCE SequencesExt
a + b == CHOOSE c \in {} : TRUE
a - b == CHOOSE c \in {} : TRUE
a * b == CHOOSE c \in {} : TRUE
a / b == CHOOSE c \in {} : TRUE
-. a == CHOOSE c \in {} : TRUE
a \div b == CHOOSE c \in {} : TRUE
a % b == CHOOSE c \in {} : TRUE
a < b == CHOOSE c \in {} : TRUE
a > b == CHOOSE c \in {} : TRUE
a \leq b == CHOOSE c \in {} : TRUE
a \geq b == CHOOSE c \in {} : TRUE
a .. b == CHOOSE c \in {} : TRUE
Eq(a, b) == CHOOSE c \in {} : TRUE
IsNaN(a) == CHOOSE c \in {} : TRUE
IsFinite(a) == CHOOSE c \in {} : TRUE
IsNum(a) == CHOOSE c \in {} : TRUE
Abs(a) == CHOOSE c \in {} : TRUE
Flt(a) == CHOOSE c \in {} : TRUE
Floor(a) == CHOOSE c \in {} : TRUE
Log(a) == CHOOSE c \in {} : TRUE
Exp(a) == CHOOSE c \in {} : TRUE
Sqrt(a) == CHOOSE c \in {} : TRUE
Sin(a) == CHOOSE c \in {} : TRUE
Cos(a) == CHOOSE c \in {} : TRUE
Pow(a, b) == CHOOSE c \in {} : TRUE
IPow(a, b) == CHOOSE c \in {} : TRUE
Min2(a, b) == CHOOSE c \in {} : TRUE
Max2(a, b) == CHOOSE c \in {} : TRUE
Tup(s) == CHOOSE c \in {} : TRUE      \* a function on 1..n as an evaluated tuple
Sum(s) == CHOOSE c \in {} : TRUE
SumAbs(s) == CHOOSE c \in {} : TRUE
Dot(s, t) == CHOOSE c \in {} : TRUE
MaxAbs(s) == CHOOSE c \in {} : TRUE
VSum(s) == CHOOSE c \in {} : TRUE     \* componentwise sum of vectors, empty ones counting as zero
VScale(a, s) == CHOOSE c \in {} : TRUE
Rank(s, x) == CHOOSE c \in {} : TRUE  \* number of elements <= x of an increasing sequence
D(s) == CHOOSE c \in {} : TRUE
Hex(s) == CHOOSE c \in {} : TRUE
UnHex(s) == CHOOSE c \in {} : TRUE

JRead(f) == CHOOSE c \in {} : TRUE    \* JSON file with exact doubles
JWrite(f, v) == CHOOSE c \in {} : TRUE \* appends one line to a file
JText(v) == CHOOSE c \in {} : TRUE
Once(k, e) == e                       \* e, evaluated once for each text k, which must determine it
Env(s) == CHOOSE c \in {} : TRUE
Int(s) == CHOOSE c \in {} : TRUE
Txt(s) == CHOOSE c \in {} : TRUE
FoldLeft(op(_, _), base, s) == SE!FoldLeft(op, base, s)
SetSeq(S) == SE!SetToSeq(S)
Reverse(s) == SE!Reverse(s)

Pi == D("3.141592653589793")
Sq(x) == x * x
Cube(x) == x * x * x
Close(a, b, scale, tol) == Eq(a, b) \/ Abs(a - b) \leq tol * scale
==========================================================================
