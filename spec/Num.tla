-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Real numbers, vectors and matrices.                                     *)
(*                                                                         *)
(* The definitions below give the meaning of every operator over the TLA+  *)
(* standard module Reals.  TLC cannot enumerate Real, so Num.java (same    *)
(* directory) overrides each of them with decimal arithmetic of 80         *)
(* significant digits: binary floats read from a trace are represented     *)
(* exactly, additions and products of them are exact for all practical     *)
(* purposes and divisions and square roots carry a relative error of about *)
(* 1e-80.  A number may be an integer, a decimal/fraction string literal   *)
(* such as "1e-9" or "5/6", or a Num value.                                *)
(***************************************************************************)
EXTENDS Naturals, Sequences
LOCAL INSTANCE Reals

RAdd(a, b) == a + b
RSub(a, b) == a - b
RMul(a, b) == a * b
RDiv(a, b) == a / b
RNeg(a)    == 0 - a
RAbs(a)    == IF a < 0 THEN 0 - a ELSE a
RSqrt(a)   == CHOOSE r \in Real : r >= 0 /\ r * r = a
RLt(a, b)  == a < b
RLe(a, b)  == a <= b
REq(a, b)  == a = b
RMax(a, b) == IF a < b THEN b ELSE a
RMin(a, b) == IF a < b THEN a ELSE b
RCeil(a)   == CHOOSE n \in Int : n >= a /\ n - 1 < a
RFloor(a)  == CHOOSE n \in Int : n <= a /\ n + 1 > a
RIsNum(a)  == a \in Real                \* FALSE for nan, inf and anything that is not a number
RStr(a)    == "<decimal rendering of a>"

a ++ b == RAdd(a, b)
a -- b == RSub(a, b)
a ** b == RMul(a, b)
a // b == RDiv(a, b)
a \prec b == RLt(a, b)
a \preceq b == RLe(a, b)

RECURSIVE RSum(_)
RSum(v) == IF v = <<>> THEN 0 ELSE Head(v) + RSum(Tail(v))
RMaxSeq(v) == CHOOSE m \in Real : \E k \in DOMAIN v : v[k] = m /\ \A j \in DOMAIN v : v[j] <= m
RDot(u, v) == RSum([k \in 1..Len(u) |-> u[k] * v[k]])
VAdd(u, v) == [k \in 1..Len(u) |-> u[k] + v[k]]
VSub(u, v) == [k \in 1..Len(u) |-> u[k] - v[k]]
VScale(a, v) == [k \in 1..Len(v) |-> a * v[k]]
VAbs(v)    == [k \in 1..Len(v) |-> RAbs(v[k])]
VZero(n)   == [k \in 1..n |-> 0]
MVec(A, v) == [i \in 1..Len(A) |-> RDot(A[i], v)]
MT(A)      == [j \in 1..Len(A[1]) |-> [i \in 1..Len(A) |-> A[i][j]]]
MTVec(A, v) == MVec(MT(A), v)
MAbsVec(A, v) == [i \in 1..Len(A) |-> RSum([j \in 1..Len(v) |-> RAbs(A[i][j] * v[j])])]
MMul(A, B) == [i \in 1..Len(A) |-> [j \in 1..Len(B[1]) |-> RSum([k \in 1..Len(B) |-> A[i][k] * B[k][j]])]]
MAdd(A, B) == [i \in 1..Len(A) |-> VAdd(A[i], B[i])]
MScale(a, A) == [i \in 1..Len(A) |-> VScale(a, A[i])]
MZero(n, m) == [i \in 1..n |-> VZero(m)]
\* The rows rs and columns cs of A; the entries ix of v
MSub(A, rs, cs) == [i \in 1..Len(rs) |-> [j \in 1..Len(cs) |-> A[rs[i]][cs[j]]]]
VSel(v, ix) == [i \in 1..Len(ix) |-> v[ix[i]]]
\* The n-by-n matrix / n-vector with every part <<dofs, entries>> added in at its degrees of freedom
MAssemble(n, parts) ==
  [i \in 1..n |-> [j \in 1..n |->
     RSum([p \in 1..Len(parts) |->
        LET ds == parts[p][1]  k == parts[p][2]
        IN  RSum([a \in 1..Len(ds) |-> RSum([b \in 1..Len(ds) |-> IF ds[a] = i /\ ds[b] = j THEN k[a][b] ELSE 0])])])]]
VAssemble(n, parts) ==
  [i \in 1..n |-> RSum([p \in 1..Len(parts) |->
        LET ds == parts[p][1]  f == parts[p][2]
        IN  RSum([a \in 1..Len(ds) |-> IF ds[a] = i THEN f[a] ELSE 0])])]
\* The solution of A x = b (ok = FALSE when A is singular), also for a matrix of right-hand sides
RSolve(A, b) == IF \E x \in [1..Len(A) -> Real] : MVec(A, x) = b
                THEN [ok |-> TRUE, x |-> CHOOSE x \in [1..Len(A) -> Real] : MVec(A, x) = b]
                ELSE [ok |-> FALSE, x |-> <<>>]
MSolve(A, B) == LET c == [j \in 1..Len(B[1]) |-> RSolve(A, [i \in 1..Len(B) |-> B[i][j]])]
                IN  [ok |-> \A j \in DOMAIN c : c[j].ok, x |-> MT([j \in DOMAIN c |-> c[j].x])]
\* Number of linearly independent rows (pivots below 1e-40 of their row's scale count as zero)
RRank(A) == CHOOSE r \in 0..Len(A) : TRUE
\* Equality of structured values; the numbers in them may differ by 1e-12 of their size
RSame(a, b) == a = b
\* The JSON null
IsNull(v) == v = "null"
\* The identity; evaluates its argument once instead of on every use
Eager(v) == v
\* The JSON document in a file, its reals as numbers (integers without a point stay integers)
RLoad(file) == CHOOSE v : TRUE
=============================================================================
