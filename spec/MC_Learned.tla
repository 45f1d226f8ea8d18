----------------------------- MODULE MC_Learned -----------------------------
(***************************************************************************)
(* The model answers as it likes, interval by interval, about a record of  *)
(* days with six readings; what follows must make sense whatever it says.  *)
(***************************************************************************)
EXTENDS Learned, Json
CONSTANTS Days, Powers, Emit
VARIABLES rec, said
vars == <<rec, said>>
Per == 6
Day(a, b, c) == <<0, a, b, c, b, 0>>
Init == rec = <<>> /\ said = <<>>
AddDay == /\ Len(rec) < Days /\ said = <<>>
          /\ \E a, b, c \in Powers : /\ (rec = <<>>) => (a = 900 /\ b = 900 /\ c \in {900, 960})
                                     /\ rec' = Append(rec, Day(a, b, c))
          /\ said' = said
N == Per * Len(rec)
\* the model answers a day at a time; at night it is never asked
Answer == /\ Len(rec) = Days /\ Len(said) < N
          /\ \E ys \in [1..4 -> BOOLEAN] :
                /\ (said = <<>>) => (\A j, k \in {1, 2, 4} : ys[j] = ys[k])
                /\ said' = said \o <<FALSE, ys[1], ys[2], ys[3], ys[4], FALSE>>
                /\ (Emit /\ Len(said') = N) => PrintT(<<"CASE", ToJson([rec |-> rec, said |-> said'])>>)
          /\ rec' = rec
Next == AddDay \/ Answer
Spec == Init /\ [][Next]_vars
Done == Len(rec) = Days /\ Len(said) = N
T == Tab(N, LAMBDA i : (i - 1) * 240)
M == Tab(Len(rec), LAMBDA d : (d - 1) * 1440)
P == Tab(N, LAMBDA i : Number(rec[((i - 1) \div Per) + 1][((i - 1) % Per) + 1]))
V == Verdicts(T, M, P, 240, T, said)
D(i) == ((i - 1) \div Per) + 1
TopOf(d) == MaxV(Tab(Per, LAMBDA k : P[(d - 1) * Per + k]))
\* only days of which the model said something
Told == Done => LET v == V IN \A i \in 1..N : v[i] # "F" => \E j \in 1..N : D(j) = D(i) /\ said[j]
NearTop == Done => LET v == V IN \A i \in 1..N : v[i] # "F" => (NQ(949, 1000) \otimes TopOf(D(i))) \preceq P[i]
\* equal powers of a day are judged alike
Alike == Done => LET v == V IN \A i, j \in 1..N : (D(i) = D(j) /\ NEq(P[i], P[j])) => v[i] = v[j]
\* a reading at its day's top that the model calls clipped is excluded
Heard == Done => LET v == V IN \A i \in 1..N : (said[i] /\ NEq(P[i], TopOf(D(i))) /\ NQ(2, 10) \preceq (TopOf(D(i)) \oslash MaxV(P))) => v[i] # "F"
ScaleFree == Done => Verdicts(T, M, Tab(N, LAMBDA i : P[i] \otimes NQ(7, 2)), 240, T, said) = V
\* the features of an interval: scale-free, and complete only where the neighbours are known
Shape == (Len(rec) = Days /\ said = <<>>) =>
    LET a == TLCEval(Features(T, M, P, 240, "fixed"))
        b == TLCEval(Features(T, M, Tab(N, LAMBDA i : P[i] \otimes NQ(7, 2)), 240, "fixed"))
        ks == Complete(a)
    IN /\ \A c \in 1..16 : c # 12 => a.x[c] = b.x[c]
       /\ \A j \in 1..Len(ks) : ks[j] > 2 /\ ks[j] < N
       /\ \A k \in 1..N : a.x[9][k] = a.x[9][((k - 1) \div Per) * Per + 1]
=============================================================================
