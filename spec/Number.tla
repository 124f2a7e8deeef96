------------------------------- MODULE Number -------------------------------
(***************************************************************************)
(* Numbers as the system keeps them.  Amounts of money are thousandths; they *)
(* are kept as the nearest single precision number.  A number anywhere is  *)
(* <<hi, lo, f>> with value hi * 65536 + lo + f / 2^30, 0 <= lo < 65536,   *)
(* 0 <= f < 2^30, so that numbers compare as sequences do.                 *)
(***************************************************************************)
EXTENDS Text

(* The single precision number nearest to a/b (a > 0, b > 0), half to even: *)
(* <<m, e>> with 2^23 <= m < 2^24 stands for m * 2^(e - 23).               *)
(* The computation is written as folds, one step per bit, which TLC does    *)
(* without evaluating anything twice.                                       *)
Steps == [k \in 1..31 |-> k]
Norm(a, b) ==           \* <<a', b', e>> with a/b = 2^e * a'/b', 1 <= a'/b' < 2
  FoldLeft(LAMBDA x, k : IF x[1] < x[2] THEN <<2 * x[1], x[2], x[3] - 1>>
                         ELSE IF x[1] >= 2 * x[2] THEN <<x[1], 2 * x[2], x[3] + 1>> ELSE x,
           <<a, b, 0>>, Steps)
Bits(x) ==              \* <<what is left, b', e, first 24 bits>>
  FoldLeft(LAMBDA y, k : IF y[1] >= y[2] THEN <<2 * (y[1] - y[2]), y[2], y[3], 2 * y[4] + 1>>
                         ELSE <<2 * y[1], y[2], y[3], 2 * y[4]>>,
           <<x[1], x[2], x[3], 0>>, SubSeq(Steps, 1, 24))
Rounded(y) ==
  LET up == y[1] > y[2] \/ (y[1] = y[2] /\ y[4] % 2 = 1)
      m == y[4] + (IF up THEN 1 ELSE 0)
  IN IF m = 16777216 THEN <<8388608, y[3] + 1>> ELSE <<m, y[3]>>
Single(a, b) == With(With(Norm(a, b), Bits), Rounded)

(* ... as stored, IEEE, big endian *)
F32Bytes(a, b) ==
  IF a = 0 THEN <<0, 0, 0, 0>>
  ELSE With(Single(a, b), LAMBDA s :
       LET m == s[1]
           e == s[2] + 127
       IN <<e \div 2, (e % 2) * 128 + ((m - 8388608) \div 65536), (m \div 256) % 256, m % 256>>)

(* ... and as a number.  Not for numbers below 1/128. *)
Whole(n) == <<n \div 65536, n % 65536, 0>>
NumberOf(a, b) ==
  IF a = 0 THEN <<0, 0, 0>>
  ELSE With(Single(a, b), LAMBDA s :
       LET k == 23 - s[2]
       IN IF k <= 0 THEN Whole(s[1] * 2^(0 - k))
          ELSE [Whole(s[1] \div 2^k) EXCEPT ![3] = (s[1] % 2^k) * 2^(30 - k)])

MoneyBytes(c) == F32Bytes(c, 1000)
Money(c) == NumberOf(c, 1000)
(* One amount below another, as kept: thousandths are told apart up to here *)
Cheaper(c, d) == c < d /\ (d < 16000000 \/ Single(c, 1000) # Single(d, 1000))

NumLT(x, y) == \/ x[1] < y[1]
               \/ x[1] = y[1] /\ x[2] < y[2]
               \/ x[1] = y[1] /\ x[2] = y[2] /\ x[3] < y[3]
=============================================================================
