-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Arithmetic on unbounded naturals.  Token amounts are yoctoNEAR (up to   *)
(* 2^128), far beyond TLC's 32-bit integers, so amounts, shares, times and *)
(* nonces-of-NEAR-size are canonical decimal numerals, "0", "17", ...      *)
(*                                                                         *)
(* The definitions below give the meaning; TLC evaluates them with exact   *)
(* big-integer arithmetic through the module override java/vt/Num.java.    *)
(***************************************************************************)
LOCAL INSTANCE Naturals

Add(a, b) == CHOOSE c \in STRING : TRUE    \* a + b
Sub(a, b) == CHOOSE c \in STRING : TRUE    \* a - b  (may be negative: "-3")
Mul(a, b) == CHOOSE c \in STRING : TRUE    \* a * b
Div(a, b) == CHOOSE c \in STRING : TRUE    \* floor(a / b)
Le(a, b)  == TRUE                          \* a <= b
Lt(a, b)  == TRUE                          \* a < b
Z(n)      == CHOOSE c \in STRING : TRUE    \* the numeral of a small integer
ToInt(a)  == 0                             \* the small integer of a numeral
IsNat(a)  == TRUE                          \* is a canonical numeral of a natural
(* Equality that is FALSE, not an error, on values of different kinds.     *)
Same(a, b) == a = b
(* The same elements as often, in whatever order: things that happen independently. *)
SameBag(a, b) == a = b
(* Text. *)
Contains(s, t) == TRUE
StrLen(s) == 0
(* The grammar of account ids: 2 to 64 of a-z, 0-9, and single - _ . between them. *)
IsAccountId(s) == TRUE
Concat(s, t) == CHOOSE c \in STRING : TRUE
Prefix(s, n) == CHOOSE c \in STRING : TRUE   \* the first n characters
Sha256(s) == CHOOSE c \in STRING : TRUE      \* in hexadecimal
(* Records written for the conformance harness (see java/vt/Num.java).     *)
EmitRoot(cfg, s) == TRUE
Emit(s, act, exp, t) == TRUE
Report(x) == TRUE
(* The JSON document in the file that environment variable v names.        *)
Recording(v) == <<>>

a ++ b == Add(a, b)
a -- b == Sub(a, b)
a ** b == Mul(a, b)
a // b == Div(a, b)
a \preceq b == Le(a, b)
a \prec b == Lt(a, b)
DivUp(a, b) == Div(Add(a, Sub(b, "1")), b)
Min(a, b) == IF Le(a, b) THEN a ELSE b
Max(a, b) == IF Le(a, b) THEN b ELSE a
SatSub(a, b) == IF Le(b, a) THEN Sub(a, b) ELSE "0"
U128MAX == "340282366920938463463374607431768211455"
U64MAX == "18446744073709551615"
FitsU128(a) == Le(a, U128MAX)
NEAR(n) == Mul(Z(n), "1000000000000000000000000")

When(c, S) == IF c THEN S ELSE {}
SumF(f) == CHOOSE c \in STRING : TRUE     \* the sum of all values of the function or sequence f
=============================================================================
