--------------------------------- MODULE Half ---------------------------------
(***************************************************************************)
(* The rule for half precision, for each of its 65536 patterns: widening   *)
(* and narrowing gives it back, order is kept, and every float from half   *)
(* way below to half way above becomes it, ties going to the even pattern. *)
(* Rounding by shifts and one addition, as software does it, is the same.  *)
(***************************************************************************)
EXTENDS NumberRules
VARIABLE h
Init == h \in 0..65535
Next == UNCHANGED h
Spec == Init /\ [][Next]_h

Less(f, g) == f[1] < g[1] \/ (f[1] = g[1] /\ f[2] < g[2])
Up(f) == IF f[2] = 65535 THEN <<f[1] + 1, 0>> ELSE <<f[1], f[2] + 1>>
Down(f) == IF f[2] = 0 THEN <<f[1] - 1, 65535>> ELSE <<f[1], f[2] - 1>>
Finite == h % 32768 < 31744
\* The float half way between h and the next pattern away from zero.
Mid == LET s == h \div 32768
           e == (h \div 1024) % 32
           m == h % 1024
       IN IF e > 0 THEN Float(s, e + 112, m * 8192 + 4096)
          ELSE LET n == 2 * m + 1
                   k == Log2(n)
               IN Float(s, 102 + k, (n - 2 ^ k) * 2 ^ (23 - k))
Even == IF h % 2 = 0 THEN h ELSE h + 1

Back == HalfIsNaN(h) \/ Narrow(Widen(h)) = h
Order == Finite => Less(Widen(h), Widen(h + 1))
Between == Finite => Less(Widen(h), Mid) /\ Less(Mid, Widen(h + 1))
Nearest == Finite => /\ Narrow(Mid) = Even
                     /\ Narrow(Down(Mid)) = h
                     /\ Narrow(Up(Mid)) = h + 1

\* n / 2^k by adding just under a half, and the last bit that stays.
Shifted(n, k) == (n + 2 ^ (k - 1) - 1 + ((n \div (2 ^ k)) % 2)) \div 2 ^ k
SameRounding == Finite =>
    \A f \in {Widen(h), Mid, Up(Mid), Down(Mid)} :
        LET e == Exponent(f)
            n == 8388608 + Mantissa(f)
        IN /\ (e >= 102 /\ e < 113) => Shifted(n, 126 - e) = Rounded(n, 126 - e)
           /\ e >= 113 => Shifted(n, 13) = Rounded(n, 13)
=============================================================================
