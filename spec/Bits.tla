--------------------------------- MODULE Bits ----------------------------------
(* Machine words as little-endian sequences of 16-bit limbs, and the word       *)
(* helpers of the library on them.                                              *)
EXTENDS Integers, Sequences, FiniteSets, Bitwise, Field

Limb == 65536
Bit(w, i) == (w[(i \div 16) + 1] \div (2^(i % 16))) % 2
BitSet(w) == {i \in 0..(16 * Len(w) - 1) : Bit(w, i) = 1}
Ones(w) == Cardinality(BitSet(w))
Top(w) == CHOOSE i \in BitSet(w) : \A j \in BitSet(w) : j <= i
IsZero(w) == \A k \in DOMAIN w : w[k] = 0
WordOf(S, n) == [k \in 1..n |->
    LET f[i \in 0..16] == IF i = 0 THEN 0 ELSE f[i - 1] + (IF (16 * (k - 1) + i - 1) \in S THEN 2^(i - 1) ELSE 0) IN f[16]]
RECURSIVE AddSmall(_, _, _)
AddSmall(w, c, k) == IF k > Len(w) THEN w
    ELSE AddSmall([w EXCEPT ![k] = (@ + c) % Limb], (w[k] + c) \div Limb, k + 1)

NextPow2(w) == IF IsZero(w) THEN w
               ELSE IF Ones(w) = 1 THEN w ELSE WordOf({Top(w) + 1}, Len(w))
RotByte(w) == WordOf({(i - 8) % 32 : i \in BitSet(w)}, 2)
NextEven(w) ==
    LET k == CHOOSE k \in 1..3 : Ones(AddSmall(w, k, 1)) % 2 = 0 /\ \A j \in 1..(k - 1) : Ones(AddSmall(w, j, 1)) % 2 = 1
    IN AddSmall(w, k, 1)

(* CRC-32 (IEEE 802.3, reflected) by its bitwise definition.                    *)
Poly == <<33568, 60856>>        \* 0xEDB88320
XorW(a, b) == [k \in DOMAIN a |-> a[k] ^^ b[k]]
Shr1(w) == <<(w[1] \div 2) + (w[2] % 2) * 32768, w[2] \div 2>>
RECURSIVE CrcBits(_, _)
CrcBits(c, n) == IF n = 0 THEN c
                 ELSE CrcBits(IF c[1] % 2 = 1 THEN XorW(Shr1(c), Poly) ELSE Shr1(c), n - 1)
RECURSIVE CrcBytes(_, _)
CrcBytes(c, bs) == IF bs = <<>> THEN c ELSE CrcBytes(CrcBits(<<c[1] ^^ bs[1], c[2]>>, 8), Tail(bs))
AllOnes == <<65535, 65535>>
Crc(bs) == XorW(CrcBytes(AllOnes, bs), AllOnes)
Bytes(w) == <<w[1] % 256, w[1] \div 256, w[2] % 256, w[2] \div 256>>

BitsApply(f, w) ==
    CASE f = "pop" -> <<Ones(w), 0>>
      [] f = "top" -> <<Top(w), 0>>
      [] f = "np2" -> NextPow2(w)
      [] f = "rot" -> RotByte(w)
      [] f = "even" -> NextEven(w)
      [] f = "crc" -> Crc(Bytes(w))
      [] f = "crc8" -> Crc(<<w[1]>>)
================================================================================
