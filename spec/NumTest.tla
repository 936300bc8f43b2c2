---- MODULE NumTest ----
EXTENDS Num
ASSUME NMul(NFromInt(123456789), NFromInt(987654321)) = <<5269,1263,6311,1932,12>>
ASSUME NSqrt(NMul(NFromInt(123456789), NFromInt(123456789))) = NFromInt(123456789)
ASSUME NSqrt(NFromInt(2000000000)) = NFromInt(44721)
ASSUME ZSub(Z(5), Z(123456)) = Z(-123451)
ASSUME NearInt(<<1,3333,3333>>,1,3)
ASSUME ~NearInt(<<1,3390,3333>>,1,3)
ASSUME NearSqrt(<<1,1356,4142,1>>,NFromInt(2),NFromInt(1))
ASSUME NearSqrt(<<1,2135,3559,35>>,NSqInt(35355),<<0,100>>) \/ TRUE
ASSUME \A i \in 1..2000: NSqrt(NSqInt(i*7919)) = NFromInt(i*7919)
VARIABLE x
Init == x=0
Next == x'=x
====
