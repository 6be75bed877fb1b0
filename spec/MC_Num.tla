---- MODULE MC_Num ----
EXTENDS Num, Integers, TLC
ASSUME REq("1/3" ++ "2/3", 1) \/ RAbs(("1/3" ++ "2/3") -- 1) \prec "1e-70"
ASSUME RAbs((RSqrt(2) ** RSqrt(2)) -- 2) \prec "1e-70"
ASSUME LET s == RSolve(<< <<2, 1>>, <<1, 3>> >>, <<3, 5>>) IN s.ok /\ RAbs(s.x[1] -- "4/5") \prec "1e-70"
ASSUME ~RSolve(<< <<1, 2>>, <<2, 4>> >>, <<1, 1>>).ok
ASSUME RRank(<< <<1, 2, 3>>, <<2, 4, 6>>, <<0, 0, 1>> >>) = 2
ASSUME RCeil("7/2") = 4 /\ RFloor("-7/2") = -4
ASSUME LET f == [i \in 1..3 |-> i ** i] IN REq(RSum(f), 14)
ASSUME MAssemble(3, << <<<<1, 3>>, << <<1, 2>>, <<3, 4>> >> >>, << <<3>>, << <<5>> >> >> >>)[3][3] = 9
ASSUME LET d == [a |-> 3, b |-> 4] IN d["a"] = 3
ASSUME RSame([a |-> <<1, "x">>, b |-> TRUE], [b |-> TRUE, a |-> <<RDiv(3, 3), "x">>]) /\ ~RSame([a |-> 1], [a |-> 2]) /\ ~RSame(<<>>, [a |-> 1])
ASSUME ~RSame("x", 1) /\ RSame(<<>>, [x \in {} |-> 1]) /\ ~RSame(TRUE, "x")
ASSUME PrintT(RSub(3, "1/7"))
====
