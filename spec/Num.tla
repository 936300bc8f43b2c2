-------------------------------- MODULE Num --------------------------------
(* Exact arithmetic beyond TLC's 32-bit integers.                            *)
(*                                                                           *)
(* Naturals are little-endian sequences of base-10^4 limbs without leading   *)
(* (i.e. trailing in the sequence) zeros; <<>> is 0.  Signed numbers are     *)
(* records [s |-> sign, m |-> natural].  Numbers logged by the harness are   *)
(* integer sequences <<sign, limb1, limb2, ...>> meaning                     *)
(*     sign * (limbs) / 10^8                                                 *)
(* where sign = 2 is NaN, 3 / -3 is +inf / -inf and 9 means "unset".         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

BASE == 10000

RECURSIVE NTrim(_)
NTrim(a) == IF Len(a) = 0 THEN a
            ELSE IF a[Len(a)] = 0 THEN NTrim(SubSeq(a, 1, Len(a) - 1)) ELSE a

RECURSIVE NFromInt(_)
NFromInt(k) == IF k = 0 THEN <<>> ELSE <<k % BASE>> \o NFromInt(k \div BASE)

Limb(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Abs(k) == IF k < 0 THEN -k ELSE k

\* normalise a sequence of non-negative column sums (each < 2^31 - 10^6)
RECURSIVE NCarryR(_, _, _, _)
NCarryR(c, i, carry, acc) ==
  IF i > Len(c) THEN acc \o NFromInt(carry)
  ELSE LET t == c[i] + carry
       IN NCarryR(c, i + 1, t \div BASE, Append(acc, t % BASE))
NCarry(c) == NTrim(NCarryR(c, 1, 0, <<>>))

NAdd(a, b) == NCarry([i \in 1..Max2(Len(a), Len(b)) |-> Limb(a, i) + Limb(b, i)])

\* compare: -1, 0, 1
RECURSIVE NCmpR(_, _, _)
NCmpR(a, b, i) == IF i = 0 THEN 0
                  ELSE IF a[i] # b[i] THEN IF a[i] < b[i] THEN -1 ELSE 1
                  ELSE NCmpR(a, b, i - 1)
NCmp(a, b) == IF Len(a) # Len(b) THEN IF Len(a) < Len(b) THEN -1 ELSE 1
              ELSE NCmpR(a, b, Len(a))
NLeq(a, b) == NCmp(a, b) <= 0

\* a - b for b <= a
RECURSIVE NSubR(_, _, _, _, _)
NSubR(a, b, i, borrow, acc) ==
  IF i > Len(a) THEN acc
  ELSE LET t == a[i] - Limb(b, i) - borrow
       IN IF t < 0 THEN NSubR(a, b, i + 1, 1, Append(acc, t + BASE))
                   ELSE NSubR(a, b, i + 1, 0, Append(acc, t))
NSub(a, b) == NTrim(NSubR(a, b, 1, 0, <<>>))

RECURSIVE ConvR(_, _, _, _, _, _)
ConvR(a, b, k, i, hi, acc) ==
  IF i > hi THEN acc ELSE ConvR(a, b, k, i + 1, hi, acc + a[i] * b[k + 1 - i])
\* each column sum is < 21 * 10^8 as long as one factor has at most 20 limbs
NMul(a, b) ==
  IF Len(a) = 0 \/ Len(b) = 0 THEN <<>>
  ELSE NCarry([k \in 1..(Len(a) + Len(b) - 1) |->
                 ConvR(a, b, k, Max2(1, k + 1 - Len(b)), Min2(k, Len(a)), 0)])

NShift(a, k) == IF Len(a) = 0 THEN a ELSE [i \in 1..k |-> 0] \o a   \* a * 10^(4k)

\* floor of the square root, limb by limb from the top
RECURSIVE RootDigit(_, _, _, _)
RootDigit(a, pre, lo, hi) ==        \* largest d in lo..hi with (pre*BASE+d)^2 <= a
  IF lo = hi THEN lo
  ELSE LET mid == (lo + hi + 1) \div 2
           r   == NTrim(<<mid>> \o pre)
       IN IF NLeq(NMul(r, r), a) THEN RootDigit(a, pre, mid, hi)
                                 ELSE RootDigit(a, pre, lo, mid - 1)
RECURSIVE NSqrtR(_, _, _)
NSqrtR(a, j, pre) ==       \* j pairs of limbs still to be consumed
  IF j = 0 THEN pre
  ELSE LET top == SubSeq(a, 2 * j - 1, Len(a))
           d   == RootDigit(NTrim(top), pre, 0, BASE - 1)
       IN NSqrtR(a, j - 1, NTrim(<<d>> \o pre))
NSqrt(a) == LET e == IF Len(a) % 2 = 1 THEN Append(a, 0) ELSE a
            IN NSqrtR(e, Len(e) \div 2, <<>>)

----------------------------------------------------------------------------
(* signed *)
Z(k)      == [s |-> IF k < 0 THEN -1 ELSE IF k = 0 THEN 0 ELSE 1, m |-> NFromInt(Abs(k))]
ZN(n)     == [s |-> IF Len(n) = 0 THEN 0 ELSE 1, m |-> n]
ZNeg(a)   == [s |-> -a.s, m |-> a.m]
ZAdd(a, b) == IF a.s = 0 THEN b ELSE IF b.s = 0 THEN a
              ELSE IF a.s = b.s THEN [s |-> a.s, m |-> NAdd(a.m, b.m)]
              ELSE LET c == NCmp(a.m, b.m)
                   IN IF c = 0 THEN Z(0)
                      ELSE IF c > 0 THEN [s |-> a.s, m |-> NSub(a.m, b.m)]
                      ELSE [s |-> b.s, m |-> NSub(b.m, a.m)]
ZSub(a, b) == ZAdd(a, ZNeg(b))
ZMul(a, b) == [s |-> a.s * b.s, m |-> NMul(a.m, b.m)]
ZCmp(a, b) == ZSub(a, b).s
ZLeq(a, b) == ZCmp(a, b) <= 0
ZSq(a)     == NMul(a.m, a.m)

SumSeq(q)  == FoldLeft(LAMBDA x, y: x + y, 0, q)
NSumSeq(q) == FoldLeft(LAMBDA x, y: NAdd(x, y), <<>>, q)
ZSumSeq(q) == FoldLeft(LAMBDA x, y: ZAdd(x, y), Z(0), q)
NSqInt(k)  == NMul(NFromInt(Abs(k)), NFromInt(Abs(k)))
\* sum of squares of a sequence of 32-bit integers
SumSqInt(q) == FoldLeft(LAMBDA x, y: NAdd(x, NSqInt(y)), <<>>, q)
RECURSIVE MaxSeqR(_, _, _)
MaxSeqR(q, i, m) == IF i > Len(q) THEN m ELSE MaxSeqR(q, i + 1, Max2(m, q[i]))
MaxSeq(q) == MaxSeqR(q, 2, q[1])
RECURSIVE MinSeqR(_, _, _)
MinSeqR(q, i, m) == IF i > Len(q) THEN m ELSE MinSeqR(q, i + 1, Min2(m, q[i]))
MinSeq(q) == MinSeqR(q, 2, q[1])

----------------------------------------------------------------------------
(* logged floats: scale 10^8 = two limbs *)
SCALE == 2
IsFinite(o) == o[1] \in {-1, 0, 1}
IsUnset(o)  == o[1] = 9
IsNaN(o)    == o[1] = 2
ObsZ(o)     == [s |-> o[1], m |-> Tail(o)]

\* | o - p/q | <= 2*10^-7 + 10^-7 |o|     (p signed, q a positive natural)
Near(o, p, q) ==
  /\ IsFinite(o)
  /\ LET v == ObsZ(o)
         d == ZSub(ZMul(v, ZN(q)), [s |-> p.s, m |-> NShift(p.m, SCALE)])
     IN NLeq(NMul(d.m, <<0, 1000>>), NMul(NAdd(<<0, 0, 2>>, v.m), q))
\* | o - p/q | <= 3*10^-8 + 10^-11 |o|: nothing but the rounding of a mean
Exact(o, p, q) ==
  /\ IsFinite(o)
  /\ LET v == ObsZ(o)
         d == ZSub(ZMul(v, ZN(q)), [s |-> p.s, m |-> NShift(p.m, SCALE)])
     IN NLeq(NMul(d.m, <<0, 0, 1000>>), NMul(NAdd(<<0, 0, 3000>>, v.m), q))
ExactInt(o, p, q) == Exact(o, Z(p), NFromInt(q))
\* o = p/q for small integers p, q > 0
NearInt(o, p, q) == Near(o, Z(p), NFromInt(q))
\* fixed-point (scale 10^8) signed number
NearFix(o, f) == Near(o, f, <<0, 0, 1>>)
\* fixed-point square root of the rational p/q: floor(sqrt(p/q) * 10^8) up to rounding of
\* the division, i.e. floor(sqrt(p*q*10^16)) / q  -- kept as the pair (root, q)
RootNum(p, q) == NSqrt(NShift(NMul(p, q), 2 * SCALE))    \* root of p*q, scaled 10^8
\* o = sqrt(p/q)
NearSqrt(o, p, q) == /\ IsFinite(o)
                     /\ LET r == RootNum(p, q)
                            v == ObsZ(o)
                            d == ZSub(ZMul(v, ZN(q)), ZN(r))
                        IN NLeq(NMul(d.m, <<0, 1000>>), NMul(NAdd(<<0, 0, 2>>, v.m), q))
\* two logged numbers agree
NearObs(a, b) == IF IsFinite(a) /\ IsFinite(b)
                 THEN Near(a, ObsZ(b), <<0, 0, 1>>)
                 ELSE a = b
\* a <= b up to tolerance (finite)
ObsLeq(a, b) == ZLeq(ObsZ(a), ObsZ(b)) \/ NearObs(a, b)
=============================================================================
