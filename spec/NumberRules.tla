----------------------------- MODULE NumberRules -----------------------------
(***************************************************************************)
(* Conversions of numbers.                                                 *)
(*                                                                         *)
(* A float is <<hi, lo>>, the upper and lower half of its 32 bits; a half  *)
(* precision number its 16 bits.  Widening is exact; narrowing rounds to   *)
(* the nearest, ties to the even one, and overflows to infinity.           *)
(***************************************************************************)
EXTENDS Common

Float(s, e, m) == <<32768 * s + 128 * e + m \div 65536, m % 65536>>
Sign(f) == f[1] \div 32768
Exponent(f) == (f[1] \div 128) % 256
Mantissa(f) == (f[1] % 128) * 65536 + f[2]
IsNaN(f) == Exponent(f) = 255 /\ Mantissa(f) # 0
HalfIsNaN(h) == (h \div 1024) % 32 = 31 /\ h % 1024 # 0

RECURSIVE Log2(_)
Log2(n) == IF n < 2 THEN 0 ELSE 1 + Log2(n \div 2)

\* The float equal to a half that is not NaN.
Widen(h) ==
    LET s == h \div 32768
        e == (h \div 1024) % 32
        m == h % 1024
    IN CASE e = 31 -> Float(s, 255, 0)
         [] e = 0 /\ m = 0 -> Float(s, 0, 0)
         [] e = 0 /\ m > 0 -> LET k == Log2(m) IN Float(s, 103 + k, (m - 2 ^ k) * 2 ^ (23 - k))
         [] OTHER -> Float(s, e + 112, m * 8192)

\* n / 2^k, rounded.
Rounded(n, k) == LET q == n \div (2 ^ k)
                     r == n % (2 ^ k)
                     half == 2 ^ (k - 1)
                 IN IF r > half \/ (r = half /\ q % 2 = 1) THEN q + 1 ELSE q
\* The half nearest to a float that is not NaN.
Narrow(f) ==
    LET e == Exponent(f)
        m == Mantissa(f)
        n == 8388608 + m
        bits == IF e < 102 THEN 0
                ELSE IF e < 113 THEN Rounded(n, 126 - e)
                ELSE Min(31744, (e - 113) * 1024 + Rounded(n, 13))
    IN 32768 * Sign(f) + (IF e = 255 THEN 31744 ELSE bits)

(***************************************************************************)
(* Checked conversion.  A number is <<negative, four limbs of 16 bits,     *)
(* most significant first (65536: too large for four)>>; a type "u8", "i64", "f24", ... : unsigned and *)
(* signed integers of so many bits, floats of so many bits of precision.   *)
(***************************************************************************)
Types == [u8 |-> <<"u", 8>>, u16 |-> <<"u", 16>>, u32 |-> <<"u", 32>>, u64 |-> <<"u", 64>>,
          i8 |-> <<"i", 8>>, i16 |-> <<"i", 16>>, i32 |-> <<"i", 32>>, i64 |-> <<"i", 64>>,
          f24 |-> <<"f", 24>>, f53 |-> <<"f", 53>>]
\* Position of the highest bit plus one, and of the lowest; of a number that is not zero.
Width(x) == LET i == CHOOSE i \in 2..5 : x[i] # 0 /\ \A j \in 2..(i - 1) : x[j] = 0
            IN 16 * (5 - i) + Log2(x[i]) + 1
RECURSIVE Trail(_)
Trail(n) == IF n % 2 = 1 THEN 0 ELSE 1 + Trail(n \div 2)
Low(x) == LET i == CHOOSE i \in 2..5 : x[i] # 0 /\ \A j \in (i + 1)..5 : x[j] = 0
          IN 16 * (5 - i) + Trail(x[i])
IsZero(x) == \A i \in 2..5 : x[i] = 0
Fits(x, type) ==
    LET t == Types[type]
    IN IF IsZero(x) THEN TRUE ELSE IF x[2] = 65536 THEN FALSE ELSE
       CASE t[1] = "u" -> x[1] = 0 /\ Width(x) <= t[2]
         [] t[1] = "i" -> Width(x) < t[2] \/ (x[1] = 1 /\ Width(x) = t[2] /\ Low(x) = t[2] - 1)
         [] t[1] = "f" -> Width(x) - Low(x) <= t[2]
=============================================================================
