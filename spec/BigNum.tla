------------------------------ MODULE BigNum ------------------------------
(* Integers of any size.  TLC's own integers have 32 bits; the scalar field  *)
(* of the system has 254.  A number is the string of its decimal digits, with *)
(* a leading "-" if it is negative.  The operators have their usual meaning;  *)
(* TLC takes them from harness/java (java.math.BigInteger) and never          *)
(* evaluates the bodies below, which only fix the arity.  ASSUME makes a run  *)
(* without the overrides impossible.                                         *)
LOCAL INSTANCE Integers
LOCAL INSTANCE TLC

None == Assert(FALSE, "BigNum needs the Java overrides")

BAdd(a, b)   == None            \* a + b
BSub(a, b)   == None            \* a - b
BMul(a, b)   == None            \* a * b
BQuo(a, b)   == None            \* floor(a / b), "0" if b = 0
BMod(a, m)   == None            \* a mod m in 0..m-1
BGcd(a, b)   == None
BCmp(a, b)   == None            \* -1, 0 or 1
BBit(a, i)   == None            \* bit i of a >= 0, an integer
BBitLen(a)   == None            \* an integer
BOfInt(i)    == None
BToInt(a)    == None            \* only for numbers that fit
BPowMod(a, e, m) == None        \* a^e mod m, a^(-1) for negative e
BInvMod(a, m)    == None        \* 0 for 0
MAdd(a, b, m) == None
MSub(a, b, m) == None
MMul(a, b, m) == None
MDot(a, b, m) == None           \* the inner product of two sequences, mod m
BHex(a, n)   == None            \* 2n hexadecimal digits
BOfHex(s)    == None
BIsNum(s)    == None            \* s is the canonical decimal form of a number
StrHash(s)   == None            \* a short digest, to keep long strings out of states

BEq(a, b) == BCmp(a, b) = 0
BLt(a, b) == BCmp(a, b) = -1
BLe(a, b) == BCmp(a, b) # 1
BNeg(a)   == BSub("0", a)
BIsZero(a) == BCmp(a, "0") = 0

ASSUME /\ BAdd("2", "3") = "5" /\ BSub("2", "3") = "-1" /\ BMul("-4", "3") = "-12"
       /\ BQuo("-7", "2") = "-4" /\ BMod("-7", "5") = "3" /\ BGcd("12", "18") = "6"
       /\ BCmp("10", "9") = 1 /\ BBit("6", 1) = 1 /\ BBit("6", 0) = 0 /\ BBitLen("8") = 4
       /\ BOfInt(17) = "17" /\ BToInt("17") = 17 /\ BPowMod("2", "-1", "7") = "4"
       /\ BInvMod("3", "7") = "5" /\ BInvMod("0", "7") = "0" /\ MSub("1", "3", "7") = "5"
       /\ MAdd("6", "3", "7") = "2" /\ MMul("6", "3", "7") = "4"
       /\ BHex("255", 2) = "00ff" /\ BOfHex("00ff") = "255" /\ MDot(<<"2", "-3">>, <<"5", "4">>, "7") = "5" /\ BIsNum("-3") /\ ~BIsNum("03")
=============================================================================
