-------------------------------- MODULE Pcg --------------------------------
(***************************************************************************)
(* The PCG (XSH RR 64/32) generator behind the library's random numbers,   *)
(* with its 64-bit states as 8 digits to the base 256, lowest first.  It   *)
(* can be run backwards, so there are seeds for any number wanted at any   *)
(* place; PcgGen writes seeds for the numbers at which the ranges of what  *)
(* is made of them end.                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

Digits == 1..8

Add(a, b) == LET RECURSIVE go(_, _)
                 go(i, c) == IF i > 8 THEN <<>>
                             ELSE LET s == a[i] + b[i] + c IN <<s % 256>> \o go(i + 1, s \div 256)
             IN go(1, 0)

Mul(a, b) == LET RECURSIVE go(_, _), dot(_, _)
                 dot(k, i) == IF i > k THEN 0 ELSE a[i] * b[k + 1 - i] + dot(k, i + 1)
                 go(k, c) == IF k > 8 THEN <<>>
                             ELSE LET s == dot(k, 1) + c IN <<s % 256>> \o go(k + 1, s \div 256)
             IN go(1, 0)

Const(n) == <<n, 0, 0, 0, 0, 0, 0, 0>>
MinusOne == <<255, 255, 255, 255, 255, 255, 255, 255>>

Mult    == <<45, 127, 149, 76, 45, 244, 81, 88>>
Inverse == <<165, 40, 158, 50, 135, 239, 151, 192>>      \* of Mult, modulo 2^64

Forth(s) == Add(Mul(s, Mult), Const(1))
Back(s)  == Mul(Add(s, MinusOne), Inverse)

FromSeed(seed) == Forth(Add(seed, Const(1)))
ToSeed(s)      == Add(Back(s), MinusOne)

Bit(s, i) == (s[(i \div 8) + 1] \div (2 ^ (i % 8))) % 2
Xor(a, b) == (a + b) % 2
Rot(s)    == Bit(s, 59) + 2 * Bit(s, 60) + 4 * Bit(s, 61) + 8 * Bit(s, 62) + 16 * Bit(s, 63)

(* The bits of the number made of a state *)
Out(s) == [i \in 0..31 |-> LET k == 27 + ((i + Rot(s)) % 32)
                           IN Xor(Bit(s, k), IF k + 18 < 64 THEN Bit(s, k + 18) ELSE 0)]

(* A state of which the number o (its bits) is made, one for each rotation *)
(* and each value of the lowest 24 bits                                    *)
StateFor(o, rot, low) ==
    LET RECURSIVE B(_)
        B(i) == IF i >= 59 THEN (rot \div (2 ^ (i - 59))) % 2
                ELSE IF i >= 27 THEN Xor(o[(32 + i - 27 - rot) % 32], IF i + 18 < 64 THEN B(i + 18) ELSE 0)
                ELSE IF i >= 24 THEN 0
                ELSE (low \div (2 ^ i)) % 2
        RECURSIVE digit(_, _)
        digit(k, j) == IF j > 7 THEN 0 ELSE B(8 * k + j) * (2 ^ j) + digit(k, j + 1)
    IN [k \in Digits |-> digit(k - 1, 0)]

(* The bits of hi * 2^16 + lo *)
BitsOf(hi, lo) == [i \in 0..31 |-> IF i < 16 THEN (lo \div (2 ^ i)) % 2 ELSE (hi \div (2 ^ (i - 16))) % 2]

ASSUME Mul(Mult, Inverse) = Const(1)
ASSUME Back(Forth(Mult)) = Mult /\ FromSeed(ToSeed(Inverse)) = Inverse

---------------------------------------------------------------------------
CONSTANTS Halves,     \* the halves of the numbers that are wanted
          Lows, Places

VARIABLES hi, lo, rot, low, place, st
vars == <<hi, lo, rot, low, place, st>>

Init == /\ hi \in Halves /\ lo \in Halves /\ low \in Lows /\ place = 0
        /\ rot \in {0, 1, 17, 31}
        /\ st = StateFor(BitsOf(hi, lo), rot, low)

(* One number earlier *)
Next == /\ place < Places
        /\ place' = place + 1
        /\ st' = Back(st)
        /\ UNCHANGED <<hi, lo, rot, low>>

Spec == Init /\ [][Next]_vars

RECURSIVE Ahead(_, _)
Ahead(s, n) == IF n = 0 THEN s ELSE Ahead(Forth(s), n - 1)

(* The number comes at its place after the seed *)
Wanted == Out(Ahead(FromSeed(ToSeed(st)), place)) = BitsOf(hi, lo)

Emit == LET s == ToSeed(st) IN
        PrintT("SCN {\"kind\":\"seed\",\"seed\":[" \o ToString(s[8] * 256 + s[7]) \o "," \o ToString(s[6] * 256 + s[5]) \o ","
               \o ToString(s[4] * 256 + s[3]) \o "," \o ToString(s[2] * 256 + s[1]) \o "],\"at\":" \o ToString(place) \o "}")
=============================================================================
