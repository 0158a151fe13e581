----------------------------- MODULE CG3Context -----------------------------
(***************************************************************************)
(* Contextual tests: positions, scans, barriers, links, templates, jumps, *)
(* dependency, relation, parenthesis and bag-of-tags tests.               *)
(* A cohort position is a pair <<w, i>>: window index, cohort index       *)
(* (cs[1] is the >>> cohort, number 0 in the manual); <<>> is "nowhere".   *)
(***************************************************************************)
EXTENDS CG3Match

fSCAN1 == 1     fSCANA == 2     fCARE == 3      fNOT == 4       fNEG == 5
fABS == 6       fSPL == 7       fSPR == 8       fSPB == 9       fPASSO == 10
fNOPO == 11     fSELF == 12     fNOBAR == 13    fMARK == 14     fJUMP == 15
fATT == 16      fWITH == 17     fDEL == 18      fDLY == 19      fIGN == 20
fACT == 21      fINACT == 22    fALL == 23      fNONE == 24     fDEPP == 25
fDEPC == 26     fDEPS == 27     fDEEP == 28     fGLOB == 29     fLEFT == 30
fRIGHT == 31    fLMOST == 32    fRMOST == 33    fLPAR == 34     fRPAR == 35
fREL == 36      fBAG == 37      fOVR == 38

Fl(T, x) == T.f[x] = 1
TestNo(i) == Case.tests[i]
Span(T) == Fl(T, fSPB) \/ Case.opt.aspan = 1
SpanL(T) == Span(T) \/ Fl(T, fSPL)
SpanR(T) == Span(T) \/ Fl(T, fSPR)
LorR(T) == Fl(T, fLEFT) \/ Fl(T, fRIGHT) \/ Fl(T, fLMOST) \/ Fl(T, fRMOST)

Cs(W, w) == W.ws[w].cs
At(W, p) == W.ws[p[1]].cs[p[2]]
Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])

\* position of the cohort with unique number u; 0 is the >>> cohort of the current window
RECURSIVE FindU(_, _, _)
FindU(W, u, w) ==
  IF w > Len(W.ws) THEN <<>>
  ELSE LET cs == W.ws[w].cs
           S == { i \in DOMAIN cs : cs[i].u = u } IN
       IF S # {} THEN <<w, CHOOSE i \in S : TRUE>> ELSE FindU(W, u, w+1)
PosOf(W, u) == IF u = 0 THEN <<W.cur, 1>> ELSE FindU(W, u, 1)

\* the sub-reading a test or rule addresses: n = 0 main, n > 0 nth below, n < 0 counted
\* from the innermost, 32767 the union of the whole chain
GSRANY == 32767
RECURSIVE CatT(_, _)
CatT(ch, i) == IF i > Len(ch) THEN <<>> ELSE ch[i].t \o CatT(ch, i+1)
SubOK(ch, n) == CASE n = 0 \/ n = GSRANY -> TRUE
                  [] n > 0 -> n < Len(ch)
                  [] n < 0 -> Len(ch) > 1 /\ -n <= Len(ch)
SubIx(ch, n) == CASE n = 0 \/ n = GSRANY -> 1
                  [] n > 0 -> n + 1
                  [] n < 0 -> Len(ch) + 1 + n
SubR(ch, n) == IF n = GSRANY /\ Len(ch) > 1 THEN [ch[1] EXCEPT !.t = CatT(ch, 1)] ELSE ch[SubIx(ch, n)]

RECURSIVE RCT(_, _, _, _)          \* run a contextual test

\* state threaded through the readings of one cohort
St(mt, did, mtests, E) == [mt |-> mt, did |-> did, tests |-> mtests, E |-> E]
Rs(ok, st) == [ok |-> ok, st |-> st]

\* doesSetMatchCohort_testLinked
RunLinked(p, T, cu, org, st) ==
  LET E == st.E
      own == T.link # 0
      fromT == ~own /\ E.tl # <<>>
  IN
  IF ~own /\ ~fromT THEN Rs(TRUE, st)
  ELSE LET lk == IF own THEN T.link ELSE Last(E.tl)
           E1 == IF fromT THEN [E EXCEPT !.tl = SubSeq(@, 1, Len(@)-1)] ELSE E
           x == IF st.did THEN [p |-> IF st.tests THEN p ELSE <<>>, E |-> E1]
                ELSE LET LT == TestNo(lk) IN
                     RCT(p, LT, IF Fl(LT, fNOPO) THEN p ELSE org, E1)
           ok == x.p # <<>>
           E2 == IF fromT THEN [x.E EXCEPT !.tl = E.tl] ELSE x.E
           E3 == IF ok THEN E2
                 ELSE [E2 EXCEPT !.tmin = IF fromT THEN E.tmin ELSE <<>>, !.tmax = IF fromT THEN E.tmax ELSE <<>>]
       IN Rs(ok, St(st.mt, st.did \/ ~cu, ok, E3))

\* doesSetMatchCohort_helper; ix = <<chain, sub>> of the reading
HelperR(p, r, sid, T, org, inb, st) ==
  LET S == Case.sets[sid]
      co == At(st.E.W, p)
      m == MatchSet(r, co, sid, FALSE, st.E)
      st1 == [st EXCEPT !.mt = @ \/ m.ok, !.E = m.E]
      x == IF ~m.ok \/ (~inb /\ Fl(T, fNOT)) THEN Rs(FALSE, st1)
           ELSE IF inb THEN Rs(TRUE, st1)
           ELSE RunLinked(p, T, S.cu = 1, org, st1)
      E2 == IF x.ok THEN x.st.E
            ELSE LET E3 == [x.st.E EXCEPT !.rx = SubSeq(@, 1, Len(st.E.rx))] IN
                 IF S.cu = 1 /\ ~st.E.capu THEN [E3 EXCEPT !.ut = st.E.ut, !.us = st.E.us] ELSE E3
  IN  Rs(x.ok, [x.st EXCEPT !.E = E2])

Active(W, co, live, i, E) == live /\ co.u = E.tgt /\ i = E.ai

\* the readings a test looks at: <<reading, kind, chain index, sub index>>
ReadingsFor(co, T, inb) ==
  LET n == IF inb THEN 0 ELSE T.sub
      F(list, k) == [i \in DOMAIN list |-> <<list[i], k, i>>] \o <<>>
      all == F(co.rs, 1) \o (IF Fl(T, fDEL) THEN F(co.del, 2) ELSE <<>>)
                         \o (IF Fl(T, fDLY) THEN F(co.dly, 3) ELSE <<>>)
                         \o (IF Fl(T, fIGN) THEN F(co.ign, 4) ELSE <<>>)
  IN  all

RECURSIVE NormL(_, _, _, _, _, _, _, _, _)
\* doesSetMatchCohortNormal: loop over the readings
NormL(rds, i, p, sid, T, org, inb, ok, st) ==
  IF i > Len(rds) THEN Rs(ok, st)
  ELSE
  LET e == rds[i]
      n == IF inb THEN 0 ELSE T.sub
      co == At(st.E.W, p)
      act == e[2] = 1 /\ co.u = st.E.tgt /\ e[3] = st.E.ai
  IN
  IF ~SubOK(e[1], n) \/ (~act /\ Fl(T, fACT)) \/ (act /\ Fl(T, fINACT))
  THEN NormL(rds, i+1, p, sid, T, org, inb, ok, st)
  ELSE LET h == HelperR(p, SubR(e[1], n), sid, T, org, inb, st)
           st2 == IF h.ok /\ ~inb /\ Fl(T, fATT) /\ e[2] = 1
                  THEN [h.st EXCEPT !.E.atc = co.u, !.E.ath = e[3], !.E.ats = SubIx(e[1], n)] ELSE h.st
           ok2 == ok \/ h.ok
       IN IF ok2 /\ (inb \/ T.link = 0 \/ st2.did) THEN Rs(ok2, st2)
          ELSE NormL(rds, i+1, p, sid, T, org, inb, ok2, st2)

CohortNormal(p, sid, T, org, inb, st0) ==
  LET co == At(st0.E.W, p)
      h0 == IF co.wt # <<>> /\ ~inb
            THEN HelperR(p, [t |-> co.wt, bf |-> ""], sid, T, org, inb, st0) ELSE Rs(FALSE, st0)
      \* the tags of the wordform can be what is attached to, but there is no reading then
      x0 == IF h0.ok /\ Fl(T, fATT) THEN Rs(TRUE, [h0.st EXCEPT !.E.atc = co.u, !.E.ath = 0, !.E.ats = 0]) ELSE h0
  IN
  IF x0.ok /\ x0.st.did THEN x0
  ELSE LET rds == ReadingsFor(co, T, inb)
           x == NormL(rds, 1, p, sid, T, org, inb, x0.ok, x0.st)
       IN IF ~x.st.mt /\ ~inb /\ Fl(T, fNOT)
          THEN RunLinked(p, T, Case.sets[sid].cu = 1, org, x.st)
          ELSE x

RECURSIVE CareL(_, _, _, _, _, _, _, _, _)
CareL(rds, i, p, sid, T, org, inb, ok, st) ==
  IF i > Len(rds) THEN Rs(ok, st)
  ELSE
  LET e == rds[i]
      n == IF inb THEN 0 ELSE T.sub
      co == At(st.E.W, p)
      act == e[2] = 1 /\ co.u = st.E.tgt /\ e[3] = st.E.ai
      \* the lists are tried one after another and the test gives up when one of them failed
      newl == i > 1 /\ rds[i-1][2] # e[2]
  IN
  IF newl /\ ~ok THEN Rs(ok, st)
  ELSE IF ~SubOK(e[1], n) \/ (~act /\ Fl(T, fACT)) \/ (act /\ Fl(T, fINACT))
  THEN CareL(rds, i+1, p, sid, T, org, inb, ok, st)
  ELSE LET h == HelperR(p, SubR(e[1], n), sid, T, org, inb, st)
           st2 == IF h.ok /\ ~inb /\ Fl(T, fATT) /\ e[2] = 1
                  THEN [h.st EXCEPT !.E.atc = co.u, !.E.ath = e[3], !.E.ats = SubIx(e[1], n)] ELSE h.st
       IN IF ~h.ok THEN Rs(FALSE, st2)
          ELSE CareL(rds, i+1, p, sid, T, org, inb, TRUE, st2)
CohortCareful(p, sid, T, org, inb, st0) ==
  LET rds == ReadingsFor(At(st0.E.W, p), T, inb)
      x == CareL(rds, 1, p, sid, T, org, inb, FALSE, st0)
  IN IF ~x.st.mt /\ ~inb /\ Fl(T, fNOT)
     THEN RunLinked(p, T, Case.sets[sid].cu = 1, org, x.st)
     ELSE x

(* One cohort against one test.  Result: the cohort (or <<>>), ok, and     *)
(* whether the enclosing scan must stop (brk), stops only by default (def) *)
(* or hit a barrier (bar).                                                 *)
RST(p, T, org, rvs, E0) ==
  LET co == At(E0.W, p)
      E1 == [E0 EXCEPT !.mark = IF Fl(T, fMARK) THEN co.u ELSE @,
                       !.mw = IF Fl(T, fWITH) THEN co.u ELSE @,
                       !.deep = p]
      st0 == St(FALSE, FALSE, FALSE, E1)
      x1 == IF Fl(T, fCARE) THEN CohortCareful(p, T.tgt, T, org, FALSE, st0)
            ELSE CohortNormal(p, T.tgt, T, org, FALSE, st0)
      \* a careful scan still stops at the first cohort that matches at all
      x == IF Fl(T, fCARE) /\ ~x1.st.mt /\ Fl(T, fSCAN1)
           THEN LET y == CohortNormal(p, T.tgt, T, org, FALSE, [x1.st EXCEPT !.did = TRUE]) IN Rs(x1.ok, y.st)
           ELSE x1
      mt == x.st.mt
      atorg == org # <<>> /\ (T.off # 0 \/ Fl(T, fSCAN1) \/ Fl(T, fSCANA)) /\ org = p /\ p[2] # 1
      b1 == rvs.brk \/ atorg \/ (mt /\ Fl(T, fSCAN1))
      isdef == ~(mt /\ Fl(T, fSCAN1)) /\ ~(Fl(T, fSCANA) \/ Fl(T, fSCAN1) \/ Fl(T, fDEEP) \/ Fl(T, fGLOB))
      b2 == b1 \/ isdef
      d2 == rvs.def \/ isdef
      stB == St(FALSE, FALSE, FALSE, x.st.E)
      yb == IF T.bar # 0 /\ ~atorg THEN CohortNormal(p, T.bar, T, <<>>, TRUE, stB) ELSE Rs(FALSE, stB)
      yc == IF T.cbar # 0 /\ ~atorg THEN CohortCareful(p, T.cbar, T, <<>>, TRUE, St(FALSE, FALSE, FALSE, yb.st.E)) ELSE Rs(FALSE, yb.st)
      bar == yb.ok \/ yc.ok
      b3 == b2 \/ bar \/ (mt /\ x.ok)
      d3 == d2 /\ ~bar
      forgive == ~b2 /\ (bar \/ rvs.bar) /\ Fl(T, fSELF) /\ Fl(T, fNOBAR)
      E9 == IF bar THEN [yc.st.E EXCEPT !.sb = TRUE] ELSE yc.st.E
      EA == IF x.ok THEN E9 ELSE [E9 EXCEPT !.rx = SubSeq(@, 1, Min2(Len(@), Len(E0.rx)))]
  IN [p |-> IF atorg THEN <<>> ELSE p, ok |-> x.ok,
      brk |-> IF forgive THEN FALSE ELSE b3, def |-> d3,
      bar |-> IF forgive THEN FALSE ELSE (rvs.bar \/ bar), E |-> EA]
NoRvs == [brk |-> FALSE, def |-> FALSE, bar |-> FALSE]
RSTAt(w, i, T, org, E) ==
  IF i < 1 \/ i > Len(Cs(E.W, w)) THEN [p |-> <<>>, ok |-> FALSE, brk |-> TRUE, def |-> FALSE, bar |-> FALSE, E |-> E]
  ELSE RST(<<w, i>>, T, org, NoRvs, E)

\* the cohort a positional test starts from: <<window, position, cohort exists>>
StartPos(W, w, i, T) ==
  LET spanabs == Fl(T, fABS) /\ (Fl(T, fSPL) \/ Fl(T, fSPR))
      w1 == IF ~spanabs THEN w
            ELSE IF w > 1 /\ Fl(T, fSPL) THEN w-1
            ELSE IF w < Len(W.ws) /\ Fl(T, fSPR) THEN w+1 ELSE 0
  IN IF w1 = 0 THEN [w |-> w, i |-> i + T.off, ok |-> FALSE]
     ELSE LET n == Len(Cs(W, w1))
              q == IF Fl(T, fABS) THEN (IF T.off < 0 THEN n + 1 + T.off ELSE T.off + 1) ELSE i + T.off
          IN IF q >= 1
             THEN IF q > n /\ (Fl(T, fSPR) \/ Fl(T, fSPB)) /\ w1 < Len(W.ws)
                  THEN [w |-> w1+1, i |-> 1, ok |-> TRUE]
                  ELSE [w |-> w1, i |-> q, ok |-> q <= n]
             ELSE IF (Fl(T, fSPL) \/ Fl(T, fSPB)) /\ w1 > 1
                  THEN [w |-> w1-1, i |-> Len(Cs(W, w1-1)), ok |-> Len(Cs(W, w1-1)) >= 1]
                  ELSE [w |-> w1, i |-> q, ok |-> FALSE]

\* the positions visited by a scan that starts at p
RECURSIVE AllLeft(_, _), AllRight(_, _)
LeftIn(p) == [k \in 1..p[2] |-> <<p[1], p[2]+1-k>>] \o <<>>
RightIn(W, p) == [k \in 1..(Len(Cs(W, p[1])) + 1 - p[2]) |-> <<p[1], p[2]+k-1>>] \o <<>>
AllLeft(W, w) == IF w = 0 THEN <<>> ELSE LeftIn(<<w, Len(Cs(W, w))>>) \o AllLeft(W, w-1)
AllRight(W, w) == IF w > Len(W.ws) THEN <<>> ELSE RightIn(W, <<w, 1>>) \o AllRight(W, w+1)

\* may a dependency step go from a cohort at a to one at b?
MayCross(T, a, b) == a[1] = b[1] \/ (b[1] < a[1] /\ (Fl(T, fSPB) \/ Fl(T, fSPL))) \/ (b[1] > a[1] /\ (Fl(T, fSPB) \/ Fl(T, fSPR)))

RECURSIVE SortPos(_)
SortPos(S) == IF S = {} THEN <<>>
              ELSE LET m == CHOOSE x \in S : \A y \in S : y = x \/ Less(x, y) IN <<m>> \o SortPos(S \ {m})
Rev(s) == [i \in DOMAIN s |-> s[Len(s)+1-i]] \o <<>>

ChPos(W, p) == { q \in { PosOf(W, At(W, p).ch[i]) : i \in DOMAIN At(W, p).ch } : q # <<>> }

RECURSIVE Desc(_, _, _, _, _), Anc(_, _, _, _, _, _), ParIter(_, _, _, _)
Desc(W, p, T, todo, seen) ==
  IF todo = {} THEN seen
  ELSE LET q == CHOOSE x \in todo : TRUE
           nx == { y \in ChPos(W, q) : MayCross(T, p, y) }
       IN Desc(W, p, T, (todo \cup (nx \ seen)) \ {q}, seen \cup nx)
DescSet(W, p, T) == LET d1 == { y \in ChPos(W, p) : MayCross(T, p, y) } IN Desc(W, p, T, d1 \ {p}, d1)
Anc(W, p, T, q, acc, seen) ==
  LET np == IF At(W, q).dp < 0 THEN <<>> ELSE PosOf(W, At(W, q).dp) IN
  IF np = <<>> \/ np \in seen THEN acc
  ELSE Anc(W, p, T, np, IF MayCross(T, p, np) THEN acc \cup {np} ELSE acc, seen \cup {np})
OrderSet(S, p, T) ==
  LET S1 == IF Fl(T, fLEFT) THEN { q \in S : Less(q, p) } ELSE S
      S2 == IF Fl(T, fRIGHT) THEN { q \in S1 : ~Less(q, p) } ELSE S1
      S3 == IF Fl(T, fSELF) THEN S2 \cup {p} ELSE S2
      s == SortPos(S3)
  IN IF Fl(T, fRMOST) THEN Rev(s) ELSE s
\* the chain of parents visited by a p test
ParIter(W, q, T, seen) ==
  IF At(W, q).dp < 0 THEN <<>>
  ELSE LET np == PosOf(W, At(W, q).dp) IN
       IF np = <<>> \/ np \in seen THEN <<>>
       ELSE IF np[1] = q[1] \/ Span(T) \/ (np[1] < q[1] /\ Fl(T, fSPL)) \/ (np[1] > q[1] /\ Fl(T, fSPR))
            THEN <<np>> \o ParIter(W, np, T, seen \cup {q})
            ELSE <<>>

RECURSIVE IterLoop(_, _, _, _, _, _, _, _)
\* loop of the cohort-iterator branch: result [p, ok, seen, brk, E]
IterLoop(its, i, cur, T, org, rvs, last, E) ==
  IF i > Len(its) THEN [p |-> last.p, ok |-> last.ok, E |-> E]
  ELSE IF (Fl(T, fLEFT) /\ Less(cur, its[i])) \/ (Fl(T, fRIGHT) /\ ~Less(cur, its[i]))
  THEN [p |-> <<>>, ok |-> FALSE, E |-> E]
  ELSE LET x == RST(its[i], T, org, rvs, E) IN
       IF (Fl(T, fALL) /\ ~x.ok) \/ (Fl(T, fNONE) /\ x.ok) THEN [p |-> <<>>, ok |-> x.ok, E |-> x.E]
       ELSE IF x.brk THEN [p |-> x.p, ok |-> x.ok, E |-> x.E]
       ELSE IterLoop(its, i+1, its[i], T, org, [brk |-> FALSE, def |-> x.def, bar |-> x.bar], [p |-> x.p, ok |-> x.ok], x.E)

RECURSIVE ZeroScan(_, _, _, _, _, _, _, _, _, _, _)
(* 0* and 0**: alternate left and right, i cohorts away.  lw/rw = 0: that  *)
(* side is finished.                                                       *)
ZeroScan(i, lw, lp, rw, rp, T, org, ok, p, E, dummy) ==
  IF lw = 0 /\ rw = 0 THEN [p |-> p, ok |-> ok, E |-> E]
  ELSE
  LET xl == IF lw = 0 THEN [p |-> p, ok |-> ok, brk |-> FALSE, E |-> E] ELSE RSTAt(lw, lp - i, T, org, E)
  IN IF lw # 0 /\ xl.brk /\ xl.ok THEN [p |-> xl.p, ok |-> TRUE, E |-> xl.E]
     ELSE
     LET atedge == lw # 0 /\ ~xl.brk /\ lp - i = 1
         lw2 == IF lw = 0 \/ xl.brk THEN 0
                ELSE IF atedge THEN (IF SpanL(T) THEN lw - 1 ELSE 0) ELSE lw
         lp2 == IF atedge /\ lw2 # 0 THEN i + Len(Cs(E.W, lw2)) + 1 ELSE lp
         rwA == IF lw # 0 /\ xl.brk /\ Fl(T, fNOT) THEN 0 ELSE rw
         xr == IF rwA = 0 THEN xl ELSE RSTAt(rwA, rp + i, T, org, xl.E)
     IN IF rwA # 0 /\ xr.brk /\ xr.ok THEN [p |-> xr.p, ok |-> TRUE, E |-> xr.E]
        ELSE
        LET ratedge == rwA # 0 /\ ~xr.brk /\ rp + i = Len(Cs(E.W, rwA))
            rw2 == IF rwA = 0 \/ xr.brk THEN 0
                   ELSE IF ratedge THEN (IF SpanR(T) /\ rwA < Len(E.W.ws) THEN rwA + 1 ELSE 0) ELSE rwA
            rp2 == IF ratedge /\ rw2 # 0 THEN -i ELSE rp
            lw3 == IF rwA # 0 /\ xr.brk /\ Fl(T, fNOT) THEN 0 ELSE lw2
        IN ZeroScan(i+1, lw3, lp2, rw2, rp2, T, org, xr.ok, xr.p, xr.E, 0)

\* children / siblings, possibly in depth (c, s, c*, s*)
RECURSIVE DepTest(_, _, _, _, _, _), DepLoop(_, _, _, _, _, _, _, _)
DepTest(w0, cur, T, org, self, E) ==
  IF self = cur THEN [p |-> <<>>, E |-> E]
  ELSE
  LET W == E.W
      me == IF self = <<>> THEN cur ELSE self
      key == <<T.id, At(W, cur).u>>
  IN IF Fl(T, fDEEP) /\ key \in E.dds THEN [p |-> <<>>, E |-> E]
     ELSE
     LET E1 == IF Fl(T, fDEEP) THEN [E EXCEPT !.dds = @ \cup {key}] ELSE E
         xs == IF Fl(T, fSELF) /\ ~LorR(T) THEN RST(cur, T, org, NoRvs, E1)
               ELSE [p |-> <<>>, ok |-> FALSE, bar |-> FALSE, E |-> E1]
     IN IF xs.ok THEN [p |-> xs.p, E |-> xs.E]
        ELSE IF xs.bar THEN [p |-> <<>>, E |-> xs.E]
        ELSE
        LET co == At(W, cur)
            par == IF co.dp = 0 THEN <<cur[1], 1>> ELSE IF co.dp < 0 THEN <<>> ELSE PosOf(W, co.dp)
            src == IF Fl(T, fDEPC) THEN cur ELSE par
        IN IF ~Fl(T, fDEPC) /\ co.dp # 0 /\ (par = <<>> \/ At(W, par).ch = <<>>) THEN [p |-> <<>>, E |-> xs.E]
           ELSE
           LET base == At(W, src).ch
               D0 == { base[i] : i \in DOMAIN base }
               D1 == { u \in D0 : PosOf(W, u) # <<>> }
               D2 == IF Fl(T, fLEFT) THEN { u \in D1 : Less(PosOf(W, u), cur) }
                     ELSE IF Fl(T, fRIGHT) THEN { u \in D1 : Less(cur, PosOf(W, u)) } ELSE D1
               D3 == IF Fl(T, fSELF) THEN D2 \cup {co.u} ELSE D2
               deps == IF ~LorR(T) THEN base
                       ELSE IF Fl(T, fRMOST) THEN Rev(SetToSortedSeq(D3)) ELSE SetToSortedSeq(D3)
           IN DepLoop(deps, 1, cur, T, org, me, <<>>, xs.E)
DepLoop(deps, i, cur, T, org, me, rv, E) ==
  IF i > Len(deps) THEN [p |-> rv, E |-> E]
  ELSE LET q == PosOf(E.W, deps[i]) IN
       IF (deps[i] = At(E.W, cur).u /\ ~Fl(T, fSELF)) \/ q = <<>> THEN DepLoop(deps, i+1, cur, T, org, me, rv, E)
       ELSE LET good == MayCross(T, cur, q)
                x == IF good THEN RST(q, T, org, NoRvs, E) ELSE [p |-> <<>>, ok |-> FALSE, bar |-> FALSE, E |-> E]
            IN IF Fl(T, fALL)
               THEN IF ~x.ok THEN [p |-> <<>>, E |-> x.E] ELSE DepLoop(deps, i+1, cur, T, org, me, q, x.E)
               ELSE IF x.ok THEN [p |-> q, E |-> x.E]
               ELSE IF x.bar THEN DepLoop(deps, i+1, cur, T, org, me, rv, x.E)
               ELSE IF Fl(T, fDEEP)
               THEN LET y == DepTest(q[1], q, T, org, me, x.E) IN
                    IF y.p # <<>> THEN y ELSE DepLoop(deps, i+1, cur, T, org, me, rv, y.E)
               ELSE DepLoop(deps, i+1, cur, T, org, me, rv, x.E)

\* relations: co.rel is a sequence of <<name, sorted seq of u>>
RECURSIVE RelLoop(_, _, _, _, _, _)
RelLoop(qs, i, T, org, rv, E) ==
  IF i > Len(qs) THEN [p |-> rv, E |-> E]
  ELSE LET x == RST(qs[i], T, org, NoRvs, E) IN
       IF Fl(T, fALL) THEN IF ~x.ok THEN [p |-> <<>>, E |-> x.E] ELSE RelLoop(qs, i+1, T, org, qs[i], x.E)
       ELSE IF x.ok THEN [p |-> qs[i], E |-> x.E] ELSE RelLoop(qs, i+1, T, org, rv, x.E)
RelTest(cur, T, org, E) ==
  LET W == E.W
      co == At(W, cur)
      nm(n) == CASE T.rel.k = "any" -> TRUE
                 [] T.rel.k = "lit" -> n = T.rel.s
                 [] T.rel.k = "rx" -> RxHas(T.rel, n)
      U == UNION { IF nm(co.rel[i][1]) THEN Range(co.rel[i][2]) ELSE {} : i \in DOMAIN co.rel }
      P0 == { q \in { PosOf(W, u) : u \in U } : q # <<>> }
      P1 == IF Fl(T, fLEFT) THEN { q \in P0 : Less(q, cur) } ELSE P0
      P2 == IF Fl(T, fRIGHT) THEN { q \in P1 : ~Less(q, cur) } ELSE P1
      P3 == IF Fl(T, fSELF) THEN P2 \cup {cur} ELSE P2
      s == SortPos(P3)
      s1 == IF Fl(T, fLMOST) /\ s # <<>> THEN <<s[1]>> ELSE s
      s2 == IF Fl(T, fRMOST) /\ s1 # <<>> THEN <<Last(s1)>> ELSE s1
  IN IF co.rel = <<>> THEN [p |-> <<>>, E |-> E] ELSE RelLoop(s2, 1, T, org, <<>>, E)

\* all tags of a window, for B tests
RECURSIVE BagCs(_, _), BagRs(_, _)
BagRs(rs, i) == IF i > Len(rs) THEN <<>> ELSE CatT(rs[i], 1) \o BagRs(rs, i+1)
Bag(W, w) == W.ws[w].bag
BagMatch(W, w, T, E) ==
  LET m(x) == BMSet([t |-> Bag(W, x), bf |-> ""], W.ws[x].cs[1], T.tgt, E)
      L == IF Fl(T, fSPB) \/ Fl(T, fSPL) THEN 1..(w-1) ELSE {}
      Rr == IF Fl(T, fSPB) \/ Fl(T, fSPR) THEN (w+1)..Len(W.ws) ELSE {}
  IN m(w) \/ \E x \in L \cup Rr : m(x)
BagCs(cs, i) == IF i > Len(cs) THEN <<>> ELSE BagRs(cs[i].rs, 1) \o BagCs(cs, i+1)

\* does the reach (entry/exit extent) of a template match satisfy an overriding position?
PosOutput(w, i, T, p, E) ==
  LET a == IF E.tmin # <<>> THEN E.tmin ELSE p
      b == IF E.tmax # <<>> THEN E.tmax ELSE E.deep
      s == <<p, E.deep, a, b>>
      lo == s[CHOOSE k \in 1..4 : \A j \in 1..4 : ~Less(s[j], s[k])]
      hi == s[CHOOSE k \in 1..4 : \A j \in 1..4 : ~Less(s[k], s[j])]
      nm == StartPos(E.W, w, i, T)     \* the position the offset names
      g1 == \/ Fl(T, fSCAN1) \/ Fl(T, fSCANA) \/ Fl(T, fABS)
            \/ (T.off > 0 /\ nm.ok /\ lo = <<nm.w, nm.i>>)
            \/ (T.off < 0 /\ nm.ok /\ hi = <<nm.w, nm.i>>)
      g2 == ~(~(Fl(T, fSPB) \/ Fl(T, fSPL) \/ Fl(T, fSPR)) /\ E.deep[1] # w)
      g3 == Fl(T, fPASSO) \/ ~((T.off < 0 /\ Less(<<w, i>>, hi)) \/ (T.off > 0 /\ Less(lo, <<w, i>>)))
  IN g1 /\ g2 /\ g3

RunTmpl(p, T, TT, org, E) ==
  LET E1 == [E EXCEPT !.intm = TRUE, !.tl = IF T.link # 0 THEN Append(@, T.link) ELSE @]
      ovr == Fl(T, fOVR)
      f1 == IF ~ovr THEN TT.f
            ELSE [T.f EXCEPT ![fNEG] = 0, ![fNOT] = 0, ![fJUMP] = 0,
                  ![fSCANA] = IF T.off # 0 /\ ~(Fl(T, fSCAN1) \/ Fl(T, fSCANA) \/ Fl(T, fABS)) THEN 1 ELSE @]
      T2 == IF ~ovr THEN TT
            ELSE [TT EXCEPT !.f = f1, !.off = T.off, !.cbar = IF T.cbar # 0 THEN T.cbar ELSE @,
                            !.bar = IF T.bar # 0 THEN T.bar ELSE @]
      x == RCT(p, T2, org, E1)
      bad == ovr /\ x.p # <<>> /\ x.E.deep # <<>> /\ T.off # 0 /\ ~PosOutput(p[1], p[2], T, x.p, x.E)
      q == IF bad THEN <<>> ELSE x.p
      E2 == [x.E EXCEPT !.tl = E.tl]
  IN [p |-> q, E |-> IF q = <<>> THEN [E2 EXCEPT !.tmin = E.tmin, !.tmax = E.tmax, !.intm = E.intm] ELSE E2]

RECURSIVE RunOrs(_, _, _, _, _)
RunOrs(k, p, T, org, E) ==
  IF k > Len(T.ors) THEN [p |-> <<>>, E |-> E]
  ELSE LET x == RunTmpl(p, T, TestNo(T.ors[k]), org, [E EXCEPT !.dds = {}]) IN
       IF x.p # <<>> THEN x ELSE RunOrs(k+1, p, T, org, x.E)

(* The outcome of a test: the cohort found (a position) or <<>>.           *)
Finish(w, p, ok, T, E) ==
  LET r1 == p # <<>> /\ ok
      r2 == IF p = <<>> /\ Fl(T, fNOT) /\ T.link = 0 THEN ~r1 ELSE r1
      r3 == IF Fl(T, fNEG) THEN ~r2 ELSE r2
  IN [p |-> IF ~r3 THEN <<>> ELSE IF p = <<>> THEN <<w, 1>> ELSE p, E |-> E]

RCT(p0, T, org0, E0) ==
  LET W == E0.W
      ju == IF ~Fl(T, fJUMP) THEN -1
            ELSE CASE T.jump = "M" -> E0.mark
                   [] T.jump = "A" -> E0.atc
                   [] T.jump = "T" -> E0.wtgt
                   [] T.jump = "1" -> IF Len(E0.octx) >= 1 THEN E0.octx[1] ELSE 0
                   [] T.jump = "2" -> IF Len(E0.octx) >= 2 THEN E0.octx[2] ELSE 0
                   [] T.jump = "3" -> IF Len(E0.octx) >= 3 THEN E0.octx[3] ELSE 0
      jp == IF ju <= 0 THEN <<>> ELSE PosOf(W, ju)
      p == IF ju = -1 THEN p0 ELSE jp
  IN
  IF p = <<>> THEN Finish(p0[1], <<>>, FALSE, T, E0)
  ELSE IF T.k = "tmpl" THEN
    LET x == RunTmpl(p, T, TestNo(T.tmpl), org0, [E0 EXCEPT !.deep = <<>>]) IN Finish(p[1], x.p, TRUE, T, x.E)
  ELSE IF T.k = "ors" THEN
    LET x == RunOrs(1, p, T, org0, [E0 EXCEPT !.deep = <<>>]) IN Finish(p[1], x.p, TRUE, T, x.E)
  ELSE
  LET s == StartPos(W, p[1], p[2], T) IN
  IF ~s.ok THEN Finish(s.w, <<>>, FALSE, T, E0)
  ELSE
  LET q == <<s.w, s.i>>
      org == IF Fl(T, fPASSO) THEN <<s.w, 1>> ELSE org0
      E1 == [E0 EXCEPT !.deep = q,
               !.tmin = IF E0.intm /\ (@ = <<>> \/ Less(q, @)) THEN q ELSE @,
               !.tmax = IF E0.intm /\ (@ = <<>> \/ Less(@, q)) THEN q ELSE @]
  IN
  CASE Fl(T, fDEPC) \/ (Fl(T, fDEPS) /\ ~Fl(T, fDEPP) /\ ~Fl(T, fGLOB)) ->
         LET x == DepTest(s.w, q, T, org, <<>>, E1)
             ok == (x.p # <<>>) # Fl(T, fNONE)
         IN Finish(IF x.p # <<>> THEN x.p[1] ELSE s.w, IF x.p # <<>> THEN x.p ELSE q, ok, T, x.E)
    [] (Fl(T, fLPAR) \/ Fl(T, fRPAR)) /\ ~Fl(T, fDEPP) /\ ~Fl(T, fGLOB) ->
         LET lp == PosOf(W, IF W.par.l = 0 THEN -2 ELSE W.par.l)
             rp == PosOf(W, IF W.par.r = 0 THEN -2 ELSE W.par.r)
             inside == lp # <<>> /\ rp # <<>> /\ q[1] = lp[1] /\ q[2] >= lp[2] /\ q[2] <= rp[2]
             tgt == IF Fl(T, fLPAR) THEN lp ELSE rp
         IN IF ~inside THEN Finish(s.w, q, FALSE, T, E1)
            ELSE LET x == RST(tgt, T, org, NoRvs, E1) IN
                 IF x.ok THEN Finish(s.w, tgt, TRUE, T, x.E) ELSE Finish(s.w, q, FALSE, T, x.E)
    [] Fl(T, fREL) /\ ~Fl(T, fDEPP) /\ ~Fl(T, fGLOB) ->
         LET x == RelTest(q, T, org, E1)
             ok == (x.p # <<>>) # Fl(T, fNONE)
         IN Finish(s.w, IF x.p # <<>> THEN x.p ELSE q, ok, T, x.E)
    [] Fl(T, fBAG) ->
         LET m == BagMatch(W, s.w, T, E1) # Fl(T, fNOT) IN
         IF ~m THEN Finish(s.w, q, FALSE, T, E1)
         ELSE IF T.link = 0 THEN Finish(s.w, q, TRUE, T, E1)
         ELSE LET x == RCT(p, TestNo(T.link), org, E1) IN Finish(s.w, x.p, TRUE, T, x.E)
    [] T.off = 0 /\ (Fl(T, fSCAN1) \/ Fl(T, fSCANA)) /\ ~Fl(T, fDEPP) /\ ~Fl(T, fGLOB) ->
         LET xs == IF Fl(T, fSELF) THEN RST(q, T, org, NoRvs, E1)
                   ELSE [p |-> q, ok |-> TRUE, brk |-> FALSE, def |-> FALSE, bar |-> FALSE, E |-> E1]
         IN IF xs.brk /\ xs.ok THEN Finish(s.w, xs.p, TRUE, T, xs.E)
            ELSE LET z == ZeroScan(1, s.w, s.i, s.w, s.i, T, org, xs.ok, xs.p, xs.E, 0) IN
                 Finish(s.w, z.p, z.ok, T, z.E)
    [] OTHER ->
         LET its == CASE Fl(T, fDEPP) /\ Fl(T, fGLOB) -> OrderSet(Anc(W, q, T, q, {}, {}), q, T)
                      [] Fl(T, fDEPP) -> ParIter(W, q, T, {})
                      [] Fl(T, fGLOB) -> OrderSet(DescSet(W, q, T), q, T)
                      [] T.off < 0 -> LeftIn(q) \o (IF SpanL(T) THEN AllLeft(W, s.w - 1) ELSE <<>>)
                      [] T.off > 0 -> RightIn(W, q) \o (IF SpanR(T) THEN AllRight(W, s.w + 1) ELSE <<>>)
                      [] OTHER -> <<q>>
             doself == Fl(T, fSELF) /\ (~LorR(T) \/ (Fl(T, fDEPP) /\ ~Fl(T, fGLOB)))
             self == <<p0[1], p[2]>>
             xs == IF doself THEN RST(self, T, org, NoRvs, E1)
                   ELSE [p |-> <<>>, ok |-> TRUE, brk |-> FALSE, def |-> FALSE, bar |-> FALSE, E |-> E1]
             cont == ~xs.brk \/ (doself /\ ~xs.ok /\ xs.def)
             rv0 == [brk |-> FALSE, def |-> xs.def /\ ~(doself /\ ~xs.ok /\ xs.def), bar |-> xs.bar]
             x == IF cont THEN IterLoop(its, 1, q, T, org, rv0, [p |-> xs.p, ok |-> xs.ok], xs.E)
                  ELSE [p |-> xs.p, ok |-> xs.ok, E |-> xs.E]
             seen == doself \/ its # <<>>
             ok1 == x.ok /\ seen
             ok2 == IF ~ok1 /\ Fl(T, fNONE) THEN TRUE ELSE ok1
             pp == IF ~ok1 /\ Fl(T, fNONE) THEN q ELSE x.p
         IN Finish(s.w, pp, ok2, T, x.E)
=============================================================================
