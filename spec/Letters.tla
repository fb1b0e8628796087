------------------------------ MODULE Letters ------------------------------
(* Integers as letters: every number there is of N bytes of W bits each,     *)
(* with and without a sign, converted to its big-endian bytes. C21.          *)
EXTENDS HuffBase

CONSTANTS W, N

VARIABLES signed, num
vars == <<signed, num>>

K == 2^W
Count == K^N
Digits(v) == IF v < 10 THEN <<v>> ELSE IF v < 100 THEN <<v \div 10, v % 10>> ELSE <<v \div 100, (v \div 10) % 10, v % 10>>
Written(v) == IF v < 0 THEN <<1>> \o Digits(-v) ELSE <<0>> \o Digits(v)
Bytes(v) == NumberBytes(Written(v), 10, N, K)
Value(b) == FoldLeft(LAMBDA a, x : a * K + x, 0, b)

Init == /\ signed \in BOOLEAN
        /\ num = IF signed THEN -(Count \div 2) ELSE 0
Next == /\ num < (IF signed THEN Count \div 2 ELSE Count) - 1
        /\ num' = num + 1 /\ UNCHANGED signed
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* The bytes stand for the number, modulo what the bytes can hold            *)
Stands == Value(Bytes(num)) = (num + Count) % Count
(* ... the first one telling negative numbers from others                    *)
Sign == signed => (num < 0 <=> Bytes(num)[1] >= K \div 2)
(* The next number has the next bytes, so no two have the same               *)
Following == [][Value(Bytes(num')) = (Value(Bytes(num)) + 1) % Count]_vars
=============================================================================
