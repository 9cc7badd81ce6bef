---------------------------- MODULE SelfTestNum ----------------------------
(* Evaluates every operator of Num on a fixed sample; run with and without *)
(* the Java class, the two results must be the same.                       *)
EXTENDS Num, TLC, Json, IOUtils, FiniteSets
VARIABLE done
S == << <<0,0>>, <<256,0>>, <<-256,0>>, <<0,1>>, <<-1,1073741823>>, <<77,123456789>>, <<-1234567,999999999>>,
        <<2147483646,1>>, <<-2147483646,5>>, <<2147483647,0>>, <<-2147483647,0>>, <<100000000,7>>, <<-500000000,1>>,
        <<13,1000000000>>, <<-4096,536870912>>, <<65536,3>>, <<1073741824,12>>, <<-1073741825,12>> >>
N == Len(S)
Bin(Op(_,_)) == [i \in 1..N |-> [j \in 1..N |-> Op(S[i], S[j])]]
B(x) == IF x THEN 1 ELSE 0
LeI(a,b) == B(Le(a,b))
NearI(a,b) == B(Near(a,b,Tol(10)))
Res == [ add |-> Bin(Add), sub |-> Bin(Sub), mul |-> Bin(Mul), le |-> Bin(LeI), near |-> Bin(NearI),
         neg |-> [i \in 1..N |-> Neg(S[i])], abs |-> [i \in 1..N |-> Abs(S[i])],
         muli |-> [i \in 1..N |-> [k \in 1..9 |-> MulI(S[i], 3*k-14)]],
         divi |-> [i \in 1..N |-> [k \in 1..9 |-> DivI(S[i], 7*k*k)]],
         rat |-> [i \in 1..9 |-> [k \in 1..9 |-> Rat(100*i-451, 7*k*k)]],
         dot |-> << Dot(SubSeq(S,1,7), SubSeq(S,2,8)), Dot(SubSeq(S,12,17), SubSeq(S,3,8)) >>,
         vs |-> << VSum(SubSeq(S,1,6)), VSum(S) >>,
         sp |-> SpDot(<<3,5,6>>, SubSeq(S,2,4), S),
         lc |-> LinComb(SubSeq(S,4,6), << SubSeq(S,1,4), SubSeq(S,3,6), SubSeq(S,13,16) >>),
         va |-> VAdd(S, Tail(S) \o <<Zero>>), vm |-> VMul(S, Tail(S) \o <<Zero>>), vsc |-> VScale(<<77,3>>, S),
         ma |-> << MaxAbs(SubSeq(S,1,7)), MaxAbs(S) >>,
         b |-> << B(AllNear(S,S,Tol(30))), B(AllZero(S,Tol(3))), B(AllNum(S)), B(AllNum(SubSeq(S,1,9))),
                  B(AllZero(SubSeq(S,4,5),Tol(20))), B(AllNear(SubSeq(S,1,9),SubSeq(S,1,9),Tol(30))) >>,
         tol |-> [k \in 1..30 |-> Tol(k)] ]
Init == done = JsonSerialize(IOEnv.OUT, Res)
Next == UNCHANGED done
=============================================================================
