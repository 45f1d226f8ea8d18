------------------------------ MODULE ClearSky ------------------------------
(***************************************************************************)
(* The modelled clear sky of a trend analysis: minute values of the sun    *)
(* and of the clear-sky model (environment: pvlib) are transposed onto the *)
(* plane of the array, averaged over every interval of the measurement     *)
(* (the label being its end), the first interval being unknown.            *)
(* Angles in degrees; m: one record of minute i =                          *)
(*   zen, az (sun), dni, ghi, dhi; tilt, azm (module).                     *)
(***************************************************************************)
EXTENDS Series
Turn(d) == d \oslash NI(360)
CosD(d) == NCos(Turn(d))
SinD(d) == NCos(Turn(d) \ominus NQ(1, 4))
\* beam + isotropic sky + ground
Transposed(zen, az, dni, ghi, dhi, tilt, azm, albedo) ==
    LET ct == TLCEval(CosD(tilt))
        proj == TLCEval((ct \otimes CosD(zen)) \oplus ((SinD(tilt) \otimes SinD(zen)) \otimes CosD(az \ominus azm)))
    IN ((dni \otimes NMax(proj, Zero)) \oplus ((dhi \otimes (One \oplus ct)) \oslash NI(2)))
       \oplus (((ghi \otimes albedo) \otimes (One \ominus ct)) \oslash NI(2))
\* ts: labels of the measurement (minutes); v[k]: value of minute ts[1] + k - 1; missing minutes are left out
IntervalMeans(ts, v) ==
    Tab(Len(ts), LAMBDA i : IF i = 1 THEN NaN
                            ELSE LET part == TLCEval(Valid(SubSeq(v, ts[i-1] - ts[1] + 2, ts[i] - ts[1] + 1)))
                                 IN IF part = <<>> THEN NaN ELSE NSum(part) \oslash NI(Len(part)))
=============================================================================
