----------------------------- MODULE BlockSize -----------------------------
(* The grammar of the block size argument: digits, then an optional unit in  *)
(* any letter case; the product must be positive and fit in 64 bits. The     *)
(* argument is a sequence of characters. C17.                                *)
EXTENDS HuffBase

IsDigit(ch) == ch >= 48 /\ ch <= 57
Lower(ch) == IF ch >= 65 /\ ch <= 90 THEN ch + 32 ELSE ch

DigitsOf(s) == LET k == SelectInSeq(s, LAMBDA ch : ~IsDigit(ch))
               IN IF k = 0 THEN s ELSE SubSeq(s, 1, k - 1)
UnitOf(s) == LET r == SubSeq(s, Len(DigitsOf(s)) + 1, Len(s))
             IN [n \in 1..Len(r) |-> Lower(r[n])]

(* factor and how often to multiply with it                                  *)
Units == { <<<<>>, 1, 0>>,
           <<<<107>>, 1000, 1>>, <<<<109>>, 1000, 2>>, <<<<103>>, 1000, 3>>,
           <<<<107, 105>>, 1024, 1>>, <<<<109, 105>>, 1024, 2>>, <<<<103, 105>>, 1024, 3>> }

TooBig == <<Base, 0, 0, 0, 0, 0>>
(* x times f plus d, or TooBig when it does not fit in 64 bits               *)
MulAdd(x, f, d) ==
    IF x = TooBig THEN TooBig
    ELSE LET y == BAdd(BMul(x, f), BigOf(d)) IN IF BFits64(y) THEN y ELSE TooBig
Number(ds) == FoldLeft(LAMBDA x, ch : MulAdd(x, 10, ch - 48), BZero, ds)

(* The size, or BZero if the argument is invalid                             *)
SizeOf(s) ==
    LET ds == DigitsOf(s)
        us == {u \in Units : u[1] = UnitOf(s)}
    IN IF ds = <<>> \/ us = {} THEN BZero
       ELSE LET u == CHOOSE u \in us : TRUE
                v == FoldLeft(LAMBDA x, n : MulAdd(x, u[2], 0), Number(ds), [n \in 1..u[3] |-> n])
            IN IF v = TooBig THEN BZero ELSE v
ValidSize(s) == SizeOf(s) # BZero
=============================================================================
