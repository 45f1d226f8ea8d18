---------------------------- MODULE TV_SoilHist ----------------------------
EXTENDS SoilHist, TraceBase
Table(e) == Tab(Len(e.iv), LAMBDA k : [valid |-> e.iv[k].valid, len |-> e.iv[k].length, low |-> NP(e.iv[k].low), high |-> NP(e.iv[k].high),
                                       start |-> NP(e.iv[k].isl), end |-> NP(e.iv[k].iel)])
\* interval k occupies positions pos[k] .. pos[k] + len of the profile
Pos(iv) == LET RECURSIVE f(_) f(k) == IF k = 1 THEN 1 ELSE f(k - 1) + iv[k-1].len + 1 IN Tab(Len(iv), LAMBDA k : f(k))
Straight(v, a, len) == len < 2 \/
    LET m == (v[a + len] \ominus v[a]) \oslash NI(len)
    IN \A j \in 1..(len - 1) : NAbs(v[a + j] \ominus (v[a] \oplus (NI(j) \otimes m))) \preceq Eps
Full(e) ==
    LET iv == Table(e)  pos == TLCEval(Pos(iv))
        n == pos[Len(iv)] + iv[Len(iv)].len
        insol == Tab(Len(e.insol), LAMBDA i : LET x == NP(e.insol[i]) IN IF IsNaN(x) THEN Zero ELSE x)
        ends(v) == Tab(Len(iv), LAMBDA k : <<v[pos[k]], v[pos[k] + iv[k].len]>>)
        bad(v) == IF Len(v) # n THEN {"profile covers the analysed days"}
                  ELSE UNION {Clause("profile is linear inside an interval", Straight(v, pos[k], iv[k].len)) : k \in 1..Len(iv)}
                       \cup HistoryOK(e.method, iv, ends(v))
        vs == Tab(Len(e.prof), LAMBDA k : NumSeq(e.prof[k]))
        means == Tab(Len(vs), LAMBDA k : NDot(vs[k], insol) \oslash NSum(insol))
        half == NP(e.cl) \oslash NI(200)
        all == UNION {bad(vs[k]) : k \in 1..Len(vs)}
    IN Clause("one profile per repetition", Len(vs) = e.reps)
       \cup Clause("profiles carry the analysed dates", e.dates)
       \cup all
       \cup (IF all # {} THEN {} ELSE
             Clause("soiling ratio is the median of the profiles' weighted means", Close(Quantile(means, NQ(1, 2)), NP(e.sr)))
             \cup Clause("lower end of the confidence interval", Close(Quantile(means, NQ(1, 2) \ominus half), NP(e.lo)))
             \cup Clause("upper end of the confidence interval", Close(Quantile(means, NQ(1, 2) \oplus half), NP(e.hi)))
             \cup Clause("exceedance level", Close(Quantile(means, One \ominus (NP(e.ex) \oslash Hundred)), NP(e.level))))
\* distribution of the draws over many repetitions; e.ab[k][j]: values of profile k at the ends of interval j
Spread(e) ==
    LET iv == Table(e)
        ab == Tab(Len(e.ab), LAMBDA k : Tab(Len(iv), LAMBDA j : <<NP(e.ab[k][j][1]), NP(e.ab[k][j][2])>>))
        N == Len(ab)  J == Len(iv)
        flat(Op(_, _)) == Valid(Tab(N * J, LAMBDA i : Op(ab[((i - 1) \div J) + 1], ((i - 1) % J) + 1)))
        rate == TLCEval(flat(LAMBDA h, j : RateDraw(iv, h, j)))
        clean == TLCEval(flat(LAMBDA h, j : CleanDraw(e.method, iv, h, j)))
        level == TLCEval(flat(LAMBDA h, j : LevelDraw(e.method, iv, h, j)))
    IN UNION {HistoryOK(e.method, iv, ab[k]) : k \in 1..N}
       \cup Uniform("rates are drawn uniformly between the bounds", rate)
       \cup Independent("rates of different intervals are drawn independently", rate)
       \cup (IF e.method = "half_norm_clean" THEN HalfNormal("half-normal recovery with the inferred three-sigma level", clean)
             ELSE Uniform("random recovery is uniform", clean) \cup Independent("recoveries are independent", clean))
       \cup Uniform("levels of invalid stretches are uniform", level)
Verdict(e) == IF e.err # "" THEN {"raised " \o e.err}
              ELSE CASE e.op = "full" -> Full(e) [] e.op = "spread" -> Spread(e)
=============================================================================
