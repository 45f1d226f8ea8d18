---------------------------- MODULE MC_ClearSky ----------------------------
(* The sun over a module, minute by minute; the measurement closes intervals *)
(* at moments of its own choice.  And the life of the clear-sky inputs: set  *)
(* up, used by either workflow, set up again.                                *)
EXTENDS ClearSky, TLC, Json
CONSTANTS Last, Levels, Steps, Emit
VARIABLES now, sky, labels,         \* minutes so far, minute values, labels of the measurement
          given, model, hist        \* clear-sky inputs given by the user, those modelled so far, history
vars == <<now, sky, labels, given, model, hist>>
Inputs == {"poa", "tcell", "tamb"}
Givens == {{}, {"poa"}, {"tcell"}, {"tamb"}, {"poa", "tamb"}, {"tcell", "tamb"}}
Init == /\ now = 0 /\ sky \in {<<x>> : x \in Levels} /\ labels = <<0>>
        /\ given = {"unset"} /\ model = {} /\ hist = <<>>
Minute == /\ now < Last /\ hist = <<>>
          /\ now' = now + 1
          /\ \E x \in Levels : sky' = Append(sky, x)
          /\ \E close \in BOOLEAN : labels' = IF close \/ now' = Last THEN Append(labels, now') ELSE labels
          /\ UNCHANGED <<given, model, hist>>
Log(x) == hist' = Append(hist, x)
SetUp == /\ Len(hist) < Steps - 1
         /\ \E g \in Givens : given' = g /\ Log([op |-> "set", given |-> g])
         /\ model' = {} /\ UNCHANGED <<now, sky, labels>>
\* the sensor workflow needs a clear sky only for its own clear-sky filter
Sensor == /\ given # {"unset"}
          /\ \E csi \in BOOLEAN : /\ model' = IF csi /\ "poa" \notin given THEN model \cup {"poa"} ELSE model
                                  /\ Log([op |-> "sensor", csi |-> csi])
          /\ UNCHANGED <<now, sky, labels, given>>
Clearsky == /\ given # {"unset"}
            /\ model' = model \cup ({"poa"} \ given)
                              \cup (IF "tcell" \in given THEN {} ELSE {"tcell"} \cup ({"tamb"} \ given))
            /\ Log([op |-> "clearsky"])
            /\ UNCHANGED <<now, sky, labels, given>>
Work == /\ Last = 0 /\ Len(hist) < Steps
        /\ (SetUp \/ Sensor \/ Clearsky)
        /\ Emit => (IF hist' # <<>> /\ hist'[Len(hist')].op # "set" THEN PrintT(<<"CASE", ToJson([hist |-> hist', given |-> given', model |-> model'])>>) ELSE TRUE)
Next == Minute \/ Work
Spec == Init /\ [][Next]_vars
Mean0 == IntervalMeans(labels, Numbers(sky))
\* every minute after the first is counted once, in the interval that ends with or after it
Conserved == labels[Len(labels)] = now =>
    NEq(NSum(Tab(Len(labels) - 1, LAMBDA i : Mean0[i+1] \otimes NI(labels[i+1] - labels[i]))),
        NSum(Tab(now, LAMBDA k : NI(sky[k+1]))))
Bounded == \A i \in 2..Len(labels) : \E a, b \in 1..Len(sky) : NI(sky[a]) \preceq Mean0[i] /\ Mean0[i] \preceq NI(sky[b])
First == IsNaN(Mean0[1])
\* merging two intervals: the mean of the whole is the weighted mean of the parts
Merged == Len(labels) >= 3 =>
    LET n == Len(labels)
        m == IntervalMeans(SubSeq(labels, 1, n - 2) \o <<labels[n]>>, Numbers(sky))
        w(i) == NI(labels[i] - labels[i-1])
    IN NEq(m[n-1] \otimes NI(labels[n] - labels[n-2]), (Mean0[n-1] \otimes w(n-1)) \oplus (Mean0[n] \otimes w(n)))
\* what is given is never modelled
Kept == given = {"unset"} \/ model \cap given = {}
Temperatures == "tamb" \in model => "tcell" \in model
\* facts of the transposition, over whole degrees (checked once)
Angles == {0, 20, 60, 90, 120, 180, 270, 350}
T(zen, az, dni, ghi, dhi, tilt, azm) == Transposed(NI(zen), NI(az), NI(dni), NI(ghi), NI(dhi), NI(tilt), NI(azm), NQ(1, 4))
Tol == NQ(1, 1000000)
ASSUME \A zen \in {0, 30, 60, 85}, az \in Angles, azm \in Angles :
    LET flat == TLCEval(T(zen, az, 800, 700, 100, 0, azm))
        up == (NI(800) \otimes CosD(NI(zen))) \oplus NI(100)
    IN /\ NClose(flat, up, Tol, Tol)                          \* a horizontal module sees the horizontal components
       /\ \A tilt \in {10, 35, 90} : /\ NI(0) \preceq T(zen, az, 800, 700, 100, tilt, azm)
                                     /\ NClose(T(zen, az, 800, 700, 100, tilt, azm), T(zen, (az + 90) % 360, 800, 700, 100, tilt, (azm + 90) % 360), Tol, Tol)
                                     \* a module turned to the sun gets the whole beam
                                     /\ T(zen, az, 800, 0, 0, tilt, azm) \preceq (T(zen, az, 800, 0, 0, zen, az) \oplus Tol)
=============================================================================
