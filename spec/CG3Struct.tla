----------------------------- MODULE CG3Struct -----------------------------
(***************************************************************************)
(* Rules that change the sequence of cohorts, the dependency tree or the  *)
(* relations between cohorts, and the window operations that go with them *)
(* (delimiting, numbering dependencies, enclosures).                       *)
(*                                                                         *)
(* A window keeps the visible cohorts in cs and the order of everything    *)
(* it will print in all; cohorts that are removed, ignored or enclosed are *)
(* in hid.                                                                 *)
(***************************************************************************)
EXTENDS CG3Rules

StructTypes == {"ADDCOHORT", "SPLITCOHORT", "MERGECOHORTS", "COPYCOHORT", "SETPARENT", "SETCHILD",
                "ADDRELATION", "SETRELATION", "REMRELATION", "ADDRELATIONS", "SETRELATIONS", "REMRELATIONS",
                "REMPARENT", "SWITCHPARENT", "MOVE", "SWITCH"}

NewCohort(u, w) == [u |-> u, w |-> w, wt |-> <<>>, rs |-> <<>>, del |-> <<>>, dly |-> <<>>, ign |-> <<>>,
                    dp |-> -1, ch |-> <<>>, rel |-> <<>>, related |-> FALSE, encn |-> FALSE, text |-> <<>>,
                    raw |-> <<>>, draw |-> <<>>, ids |-> 0, idp |-> -1, hasd |-> FALSE, rid |-> 0, rrel |-> <<>>, pl |-> "", pr |-> ""]
BeginCohort(u) == [NewCohort(u, ">>>") EXCEPT !.rs = << <<[NewReading(1000) EXCEPT !.t = <<">>>">>, !.bf = ">>>"]>> >>]
NewWindow(u, wn) == [cs |-> <<BeginCohort(u)>>, all |-> <<u>>, hid |-> <<>>, bag |-> <<">>>">>, text |-> <<>>, tpost |-> <<>>,
                     flush |-> FALSE, vset |-> <<>>, vrem |-> <<>>, vout |-> <<>>, wn |-> wn, hasenc |-> FALSE]
NoPar == [l |-> 0, r |-> 0, lt |-> "", rt |-> "", lp |-> 0, rp |-> 0]

IsDepTag(t) == Len(t) >= 4 /\ Ch(t, 1) = "#" /\ t # "#" /\ \E i \in 2..Len(t) : SubSeq(t, i, Min2(i+1, Len(t))) = "->"

(* The annotation of the reading a rule works on.                          *)
TraceHit(ri, a, G) ==
  LET p == PosOf(G.W, a.u)
      ch == At(G.W, p).rs[a.i]
      r1 == IF Rule(ri).sub = GSRANY
            THEN [ch EXCEPT ![1] = IF Len(ch) = 1 THEN Hit(Hit(@, ri), ri) ELSE Hit(@, ri)]
            ELSE [ch EXCEPT ![a.k] = Hit(@, ri)]
  IN [G EXCEPT !.W.ws[p[1]].cs[p[2]].rs[a.i] = r1]
HitMain(cs, ri) == [i \in DOMAIN cs |-> [cs[i] EXCEPT ![1] = Hit(@, ri)]] \o <<>>
HitCo(W, u, ri) == LET p == PosOf(W, u) IN [W EXCEPT !.ws[p[1]].cs[p[2]].rs = HitMain(@, ri)]

(******************************** the dependency tree **********************)
Vis(W, u) == PosOf(W, u) # <<>>
AddCh(co, x) == [co EXCEPT !.ch = IF Has(@, x) THEN @ ELSE SetToSortedSeq(Range(@) \cup {x})]
RemCh(co, x) == [co EXCEPT !.ch = SelectSeq(@, LAMBDA y : y # x)]
NoMoreCh(W, x) ==      \* x is nobody's child any more
  [W EXCEPT !.ws = [w \in DOMAIN @ |-> [@[w] EXCEPT !.cs = [i \in DOMAIN @ |-> RemCh(@[i], x)] \o <<>>]] \o <<>>]

\* is y the parent of x?  0 is the beginning of the cohort's own window
IsPar(W, x, y) == LET d == CoOf(W, x).dp IN d = y \/ (d = 0 /\ W.ws[PosOf(W, x)[1]].cs[1].u = y)
RECURSIVE UpChain(_, _, _, _)
\* does climbing from inner reach a cohort whose parent is cu?
UpChain(W, inner, cu, seen) ==
  LET d == CoOf(W, inner).dp IN
  IF d <= 0 \/ ~Vis(W, d) \/ d \in seen THEN FALSE
  ELSE IF IsPar(W, d, cu) THEN TRUE ELSE UpChain(W, d, cu, seen \cup {d})
IsChildOf(W, c, p) == c = p \/ IsPar(W, c, p) \/ UpChain(W, c, p, {})
WouldLoop(W, pu, cu) ==
  IF pu = cu THEN TRUE
  ELSE IF IsPar(W, cu, pu) THEN FALSE
  ELSE IF IsPar(W, pu, pu) THEN FALSE
  ELSE IF IsPar(W, pu, cu) THEN TRUE ELSE UpChain(W, pu, cu, {})
(* --dep-no-crossing.  What is decided is whether the parent of the new     *)
(* parent itself hangs outside; an honest test would look at the cohorts in *)
(* between (known finding; its effect is pinned by T_Dependency_Loops).     *)
WouldCross(W, pu, cu) ==
  LET mn == Min2(pu, cu)
      mx == Max2(pu, cu)
      d == CoOf(W, pu).dp
  IN /\ mx > mn + 1 /\ d >= 0 /\ Vis(W, d)
     /\ LET x == CoOf(W, d).dp IN x >= 0 /\ (x < mn \/ x > mx)
(* [W, ok]: make pu the parent of cu, unless that closes a loop or crosses *)
Attach(W, pu, cu, al, ac) ==
  IF (~al /\ Case.opt.loops = 0 /\ WouldLoop(W, pu, cu)) \/ (~ac /\ Case.opt.nocross = 1 /\ WouldCross(W, pu, cu))
  THEN [W |-> W, ok |-> FALSE]
  ELSE
  LET cp == PosOf(W, cu)
      old == At(W, cp).dp
      op == IF old < 0 THEN cp ELSE PosOf(W, old)
      W1 == IF op = <<>> THEN W ELSE SetCo(W, op, RemCh(At(W, op), cu))
      W2 == [W1 EXCEPT !.ws[cp[1]].cs[cp[2]] = [@ EXCEPT !.dp = pu, !.hasd = FALSE]]
      pp == PosOf(W, pu)
      W3 == [W2 EXCEPT !.ws[pp[1]].cs[pp[2]] = [AddCh(@, cu) EXCEPT !.hasd = FALSE]]
  IN [W |-> IF pp[1] # cp[1] THEN [W3 EXCEPT !.spanned = TRUE] ELSE W3, ok |-> TRUE]
RECURSIVE AttachAll(_, _, _, _, _)
AttachAll(W, pu, us, i, force) ==
  IF i > Len(us) THEN W ELSE AttachAll(Attach(W, pu, us[i], force, force).W, pu, us, i+1, force)
Detach(W, u) ==
  LET p == PosOf(W, u)
      d == At(W, p).dp
      q == IF d < 0 THEN <<>> ELSE PosOf(W, d)
      W1 == IF q = <<>> THEN W ELSE SetCo(W, q, RemCh(At(W, q), u))
  IN [W1 EXCEPT !.ws[p[1]].cs[p[2]].dp = -1]

(* Number the dependencies of the input: cohorts are grouped until a       *)
(* number repeats, and a parent number means the cohort of that group.     *)
DepCos(W) == Cat([w \in DOMAIN W.ws |-> SelectSeq([i \in DOMAIN W.ws[w].cs |-> [u |-> W.ws[w].cs[i].u, s |-> W.ws[w].cs[i].ids,
                     p |-> W.ws[w].cs[i].idp, h |-> W.ws[w].cs[i].hasd, w |-> w, r |-> W.ws[w].cs[1].u]] \o <<>>, LAMBDA e : e.h)])
RECURSIVE DepGroups(_, _, _, _), LinkGroup(_, _, _)
DepGroups(es, i, cur, acc) ==
  IF i > Len(es) THEN IF cur = <<>> THEN acc ELSE Append(acc, cur)
  ELSE IF \E j \in DOMAIN cur : cur[j].s = es[i].s THEN DepGroups(es, i, <<>>, Append(acc, cur))
  ELSE DepGroups(es, i+1, Append(cur, es[i]), acc)
LinkGroup(W, g, i) ==
  IF i > Len(g) THEN W
  ELSE LET e == g[i]
           S == { j \in DOMAIN g : g[j].s = e.p }
           to == IF e.p < 0 THEN -1 ELSE IF e.p = 0 THEN 0 ELSE IF S = {} THEN -1 ELSE g[CHOOSE j \in S : TRUE].u
           p == PosOf(W, e.u)
           W1 == [W EXCEPT !.ws[p[1]].cs[p[2]] = [@ EXCEPT !.dp = to, !.hasd = FALSE]]
           q == IF to < 0 THEN <<>> ELSE IF to = 0 THEN <<p[1], 1>> ELSE PosOf(W1, to)
       IN LinkGroup(IF q = <<>> THEN W1 ELSE SetCo(W1, q, AddCh(At(W1, q), e.u)), g, i+1)
RECURSIVE LinkGroups(_, _, _)
LinkGroups(W, gs, i) == IF i > Len(gs) THEN W ELSE LinkGroups(LinkGroup(W, gs[i], 1), gs, i+1)
ReflowDeps(W, eof) == LinkGroups(W, DepGroups(DepCos(W), 1, <<>>, <<>>), 1)

(******************************** relations ********************************)
SetRelated(co) == [co EXCEPT !.related = TRUE, !.rs = [i \in DOMAIN @ |-> [@[i] EXCEPT ![1].np = FALSE]] \o <<>>]
RelOf(co, n) == IF AssocHas(co.rel, n) THEN AssocGet(co.rel, n) ELSE <<>>
PutRel(co, n, us) == [co EXCEPT !.rel = AssocPut(@, n, SetToSortedSeq(us))]
AddRel(co, n, u) == PutRel(co, n, Range(RelOf(co, n)) \cup {u})
RTag(n, u) == "R:" \o n \o ":" \o ToString(u - 1)
MainEach(co, Op(_)) == [co EXCEPT !.rs = [i \in DOMAIN @ |-> [@[i] EXCEPT ![1] = Op(@)]] \o <<>>]
AddRTag(co, n, u) == MainEach(co, LAMBDA r : AddTag(r, RTag(n, u)))
DelRTag(co, n, u) == MainEach(co, LAMBDA r : DelTag(r, RTag(n, u)))
SetRTag(co, n, u) == MainEach(co, LAMBDA r : AddTag([r EXCEPT !.t = SelectSeq(@, LAMBDA t : ~StartsWith(t, "R:" \o n \o ":"))], RTag(n, u)))

\* relations of the input whose target has been read
InputRels(W) ==
  LET \* a removed cohort keeps its identifier for as long as its window is there
      ids == Cat([w \in DOMAIN W.ws |-> SelectSeq(([i \in DOMAIN W.ws[w].cs |-> <<W.ws[w].cs[i].rid, W.ws[w].cs[i].u>>] \o <<>>)
                                               \o [i \in DOMAIN W.ws[w].hid |-> <<W.ws[w].hid[i].co.rid, W.ws[w].hid[i].co.u>>], LAMBDA e : e[1] # 0)])
      RECURSIVE Rez(_, _)
      Rez(co, i) ==
        IF i > Len(co.rrel) THEN co
        ELSE LET n == co.rrel[i][1]
                 xs == co.rrel[i][2]
                 know == { AssocGet(ids, x) : x \in { y \in Range(xs) : AssocHas(ids, y) } }
                 c1 == IF know = {} THEN co ELSE PutRel(co, n, Range(RelOf(co, n)) \cup know)
             IN Rez([c1 EXCEPT !.rrel[i][2] = SelectSeq(@, LAMBDA y : ~AssocHas(ids, y))], i+1)
  IN [W EXCEPT !.ws = [w \in DOMAIN @ |-> [@[w] EXCEPT !.cs =
        [i \in DOMAIN @ |-> IF @[i].rrel = <<>> THEN @[i]
                            ELSE LET c == Rez(@[i], 1) IN [c EXCEPT !.rrel = SelectSeq(@, LAMBDA e : e[2] # <<>>)]] \o <<>>]] \o <<>>]
ReflowRels(W) == InputRels(W)

\* [co, did]: one relation change on cohort co towards u
RelChange(kind, co, n, u) ==
  CASE kind = "ADD" -> [co |-> AddRTag(AddRel(SetRelated(co), n, u), n, u), did |-> ~Has(RelOf(co, n), u)]
    [] kind = "SET" -> [co |-> SetRTag(PutRel([SetRelated(co) EXCEPT !.rrel = AssocDel(@, n)], n, {u}), n, u), did |-> RelOf(co, n) # <<u>>]
    [] kind = "REM" -> [co |-> DelRTag(IF AssocHas(co.rel, n) THEN PutRel(co, n, Range(RelOf(co, n)) \ {u}) ELSE co, n, u), did |-> Has(RelOf(co, n), u)]
RECURSIVE RelChanges(_, _, _, _, _, _, _)
RelChanges(kind, W, from, ns, i, to, did) ==
  IF i > Len(ns) THEN [W |-> W, did |-> did]
  ELSE LET p == PosOf(W, from)
           x == RelChange(kind, At(W, p), ns[i], to)
       IN RelChanges(kind, SetCo(W, p, x.co), from, ns, i+1, to, did \/ x.did)

(******************************** window operations ************************)
\* does cohort p match the set, no test involved?
CoMatches(W, p, sid, E) ==
  LET co == At(W, p)
      E1 == [E EXCEPT !.W = W]
  IN /\ sid # 0
     /\ \/ co.wt # <<>> /\ MatchSet([t |-> co.wt, bf |-> ""], co, sid, FALSE, E1).ok
        \/ \E i \in DOMAIN co.rs : MatchSet(co.rs[i][1], co, sid, FALSE, E1).ok
\* the unique numbers of the cohorts WITHCHILD cset takes along with u
Subtree(W, u, cset, E) ==
  IF cset = 0 THEN {u}
  ELSE LET cs == Cs(W, W.cur)
           us == { cs[i].u : i \in DOMAIN cs }
           d1 == { x \in us : x # u /\ CoOf(W, x).dp = u /\ CoMatches(W, PosOf(W, x), cset, E) }
       IN (us \cap {u}) \cup d1 \cup { x \in us : \E y \in d1 : IsChildOf(W, x, y) }
InOrder(W, S) == LET ps == SortPos({ PosOf(W, u) : u \in S }) IN [i \in DOMAIN ps |-> At(W, ps[i]).u] \o <<>>

HasEnd(co) == \E i \in DOMAIN co.rs : Has(co.rs[i][1].t, EndTag)
DropEnd(co) == MainEach(co, LAMBDA r : DelTag(r, EndTag))
GiveEnd(co) == MainEach(co, LAMBDA r : IF Has(r.t, EndTag) THEN r ELSE AddTag(r, EndTag))
PushEnd(co) == MainEach(co, LAMBDA r : AddTag(r, EndTag))
\* keep <<< on the last cohort only
EndTagFix(W, w) ==
  LET cs == Cs(W, w)
      n == Len(cs)
  IN IF ~\E i \in DOMAIN cs : HasEnd(cs[i]) THEN W
     ELSE [W EXCEPT !.ws[w].cs = [i \in DOMAIN @ |-> IF i = n THEN GiveEnd(@[i]) ELSE DropEnd(@[i])] \o <<>>]

AfterU(s, u, new) == InsertAt(s, IndexOf(s, u) + 1, new)
BeforeU(s, u, new) == InsertAt(s, IndexOf(s, u), new)
CsInsert(W, edge, before, co) ==
  LET p == PosOf(W, edge) IN
  [W EXCEPT !.ws[p[1]] = [@ EXCEPT !.cs = InsertAt(@, IF before THEN p[2] ELSE p[2] + 1, <<co>>),
                                   !.all = IF before THEN BeforeU(@, edge, <<co.u>>) ELSE AfterU(@, edge, <<co.u>>)]]
\* take cohort u out of the visible ones; it stays in all as hidden in state st
Hide(W, u, st, depth) ==
  LET p == PosOf(W, u)
      h == [co |-> At(W, p), st |-> st, depth |-> depth, ln |-> p[2]]
  IN [W EXCEPT !.ws[p[1]] = [@ EXCEPT !.cs = RemoveAt(@, p[2]), !.hid = Append(@, h)]]

\* the window that begins after cohort p
DelimitAt(W, p) ==
  LET old == W.ws[p[1]]
      u == old.cs[p[2]].u
      k == IndexOf(old.all, u)
      rest == SubSeq(old.all, k+1, Len(old.all))
      nwin == [NewWindow(W.nu, W.nw) EXCEPT !.cs = @ \o SubSeq(old.cs, p[2]+1, Len(old.cs)),
                 !.all = @ \o rest, !.hid = SelectSeq(old.hid, LAMBDA h : Has(rest, h.co.u)),
                 !.flush = old.flush, !.tpost = old.tpost, !.hasenc = old.hasenc,
                 !.bag = Uniq(@ \o BagCs(SubSeq(old.cs, p[2]+1, Len(old.cs)), 1))]
      cut == [old EXCEPT !.cs = [i \in 1..p[2] |-> IF i = p[2] THEN PushEnd(old.cs[i]) ELSE old.cs[i]] \o <<>>,
                !.all = SubSeq(@, 1, k), !.hid = SelectSeq(@, LAMBDA h : ~Has(rest, h.co.u)),
                !.flush = FALSE, !.tpost = <<>>]
  IN [W EXCEPT !.ws = SubSeq(@, 1, p[1]-1) \o <<cut, nwin>> \o SubSeq(@, p[1]+1, Len(@)), !.nu = @ + 1, !.nw = @ + 1]

(******************************** enclosures *******************************)
EnclNext(W) ==
  LET win == W.ws[W.cur]
      enc == { win.hid[i].co.u : i \in { j \in DOMAIN win.hid : win.hid[j].depth > 0 } }
      nx(u) == LET k == IndexOf(win.all, u) IN k < Len(win.all) /\ win.all[k+1] \in enc
  IN [W EXCEPT !.ws[W.cur].cs = [i \in DOMAIN win.cs |-> [win.cs[i] EXCEPT !.encn = nx(win.cs[i].u)]] \o <<>>]
RECURSIVE WrapFrom(_, _)
\* look for a left parenthesis from cohort i leftwards
WrapFrom(W, i) ==
  IF i < 1 THEN W
  ELSE LET cs == Cs(W, W.cur)
           l == cs[i].pl
           R == IF l = "" THEN {} ELSE { j \in i..Len(cs) : cs[j].pr = AssocGet(Case.parens, l) }
       IN IF R = {} THEN WrapFrom(W, i-1)
          ELSE LET j == MinS(R)
                   win == W.ws[W.cur]
                   a == IndexOf(win.all, cs[i].u)
                   b == IndexOf(win.all, cs[j].u)
                   within == Range(SubSeq(win.all, a, b))
                   deeper == [k \in DOMAIN win.hid |-> IF win.hid[k].co.u \in within THEN [win.hid[k] EXCEPT !.depth = @ + 1] ELSE win.hid[k]] \o <<>>
                   new == [k \in 1..(j-i+1) |-> [co |-> cs[i+k-1], st |-> "enc", depth |-> 1, ln |-> 0]] \o <<>>
                   W1 == [W EXCEPT !.ws[W.cur] = [@ EXCEPT !.cs = SubSeq(@, 1, i-1) \o SubSeq(@, j+1, Len(@)),
                                                           !.hid = deeper \o new, !.hasenc = TRUE]]
               IN WrapFrom(W1, Len(Cs(W1, W1.cur)))
Wrap(W) == WrapFrom(W, Len(Cs(W, W.cur)))
\* reveal the first run of enclosed cohorts of depth 1
Unpack(W) ==
  LET win == W.ws[W.cur]
      hidU == { win.hid[i].co.u : i \in DOMAIN win.hid }
      H(u) == win.hid[CHOOSE i \in DOMAIN win.hid : win.hid[i].co.u = u]
      i0 == MinS({ i \in DOMAIN win.all : win.all[i] \in hidU /\ H(win.all[i]).depth = 1 })
      la == MaxS({ i \in 1..(i0-1) : win.all[i] \notin hidU })
      N == { i \in i0..Len(win.all) : win.all[i] \notin hidU }
      ra == IF N = {} THEN Len(win.all) ELSE MinS(N) - 1
      run == SubSeq(win.all, i0, ra)
      shown == SelectSeq(run, LAMBDA u : H(u).depth = 1)
      ni == CHOOSE i \in DOMAIN win.cs : win.cs[i].u = win.all[la]
      new == [k \in DOMAIN shown |-> H(shown[k]).co] \o <<>>
      gone == Range(shown)
      hid2 == SelectSeq([k \in DOMAIN win.hid |-> IF Has(run, win.hid[k].co.u) /\ win.hid[k].depth > 0
                                                  THEN [win.hid[k] EXCEPT !.depth = @ - 1] ELSE win.hid[k]] \o <<>>,
                        LAMBDA h : h.co.u \notin gone)
  IN [W EXCEPT !.ws[W.cur] = [@ EXCEPT !.cs = SubSeq(@, 1, ni) \o new \o SubSeq(@, ni+1, Len(@)), !.hid = hid2],
               !.par = [l |-> new[1].u, r |-> Last(new).u, lt |-> H(run[1]).co.pl, rt |-> H(Last(run)).co.pr,
                        lp |-> ni, rp |-> ni + Len(new) - 1]]
\* the cohorts REMCOHORT IGNORED hid come back when the window is done
RECURSIVE UnignFrom(_, _)
UnignFrom(W, i) ==
  IF i < 1 THEN W
  ELSE LET win == W.ws[W.cur]
           u == win.all[i]
           X == { k \in DOMAIN win.hid : win.hid[k].co.u = u /\ win.hid[k].st = "ign" }
       IN IF X = {} THEN UnignFrom(W, i-1)
          ELSE LET h == win.hid[CHOOSE k \in X : TRUE]
                   vis == { k \in 1..(i-1) : \E j \in DOMAIN win.cs : win.cs[j].u = win.all[k] }
                   at == CHOOSE j \in DOMAIN win.cs : win.cs[j].u = win.all[MaxS(vis)]
               IN UnignFrom([W EXCEPT !.ws[W.cur] = [@ EXCEPT !.cs = InsertAt(@, at+1, <<h.co>>),
                                                              !.hid = SelectSeq(@, LAMBDA x : x.co.u # u)]], i-1)
Unignore(W) == UnignFrom(W, Len(W.ws[W.cur].all))

(******************************** new cohorts ******************************)
\* readings of a new cohort: the star stands for the tags of reading nt
RECURSIVE StarTags(_, _, _)
StarTags(ts, i, nt) ==
  IF i > Len(ts) THEN <<>>
  ELSE (IF ts[i] = "*" /\ Len(nt) > 2 THEN <<nt[3]>> \o SelectSeq(SubSeq(nt, 4, Len(nt)), LAMBDA t : ~IsDepTag(t))
        ELSE <<ts[i]>>) \o StarTags(ts, i+1, nt)
NonWords(ts) == SelectSeq(ts, LAMBDA t : ~IsWordform(t))
Fresh(co0, tags, nt, ri, tr) ==
  LET rds == GroupReadings(tags, 1, <<>>)
      full == [i \in DOMAIN rds |-> StarTags(rds[i], 1, nt)] \o <<>>
      co == AddReadings(co0, full, 1, ri)
      mg == MagicReading(co)
  IN IF co.rs # <<>> THEN co
     ELSE [co EXCEPT !.rs = << << IF tr /\ Case.opt.trace = 1 THEN [mg EXCEPT !.np = FALSE, !.hit = <<ri>>] ELSE mg >> >>]

\* the nearest cohort not among withs, looking right before left, one further away each time
RECURSIVE Nearest(_, _, _, _, _)
Nearest(W, w, l, r, withs) ==
  LET cs == Cs(W, w)
      n == Len(cs) IN
  IF l < 1 /\ r > n THEN 0
  ELSE IF r <= n /\ cs[r].u \notin withs THEN cs[r].u
  ELSE IF l >= 1 /\ cs[l].u \notin withs THEN cs[l].u
  ELSE Nearest(W, w, l-1, r+1, withs)

TE(E) == [E EXCEPT !.dds = {}, !.tl = <<>>, !.tmin = <<>>, !.tmax = <<>>, !.intm = FALSE, !.deep = <<>>]
\* the tests of the second context of a rule, from cohort at
RECURSIVE DepTests(_, _, _, _)
DepTests(ts, k, at, E) ==
  IF k > Len(ts) THEN [ok |-> TRUE, E |-> E]
  ELSE LET x == RCT(PosOf(E.W, at), TestNo(ts[k]), <<>>, [TE(E) EXCEPT !.mark = at]) IN
       IF x.p = <<>> THEN [ok |-> FALSE, E |-> x.E] ELSE DepTests(ts, k+1, at, x.E)
\* what the main context of a rule finds from cohort tu: [at (0: nothing), sb, E]
FindTarget(T, tu, E) ==
  LET x == RCT(PosOf(E.W, tu), T, <<>>, [TE(E) EXCEPT !.atc = 0, !.ath = 0, !.ats = 0, !.sb = FALSE]) IN
  [at |-> IF x.p = <<>> \/ x.E.deep = <<>> THEN 0
          ELSE IF x.E.atc # 0 THEN x.E.atc ELSE At(x.E.W, x.E.deep).u,
   sb |-> x.E.sb, E |-> x.E, p |-> x.E.deep]

(******************************** adding cohorts ***************************)
WithoutCo(W, u) == [W EXCEPT !.ws = [w \in DOMAIN @ |-> [@[w] EXCEPT !.cs = SelectSeq(@, LAMBDA c : c.u # u), !.all = SelectSeq(@, LAMBDA x : x # u)]] \o <<>>]
Edge(W, S, front) == LET o == InOrder(W, S) IN IF front THEN o[1] ELSE Last(o)
MgNone == [is |-> FALSE, withs |-> {}, c |-> 0]
RECURSIVE TakeRels(_, _, _)
TakeRels(co, rel, i) ==
  IF i > Len(rel) THEN co
  ELSE TakeRels(PutRel(co, rel[i][1], Range(RelOf(co, rel[i][1])) \cup Range(rel[i][2])), rel, i+1)
RenameRel(co, S, u) == [co EXCEPT !.rel = [i \in DOMAIN @ |-> IF Range(@[i][2]) \cap S = {} THEN @[i]
                                              ELSE <<@[i][1], SetToSortedSeq((Range(@[i][2]) \ S) \cup {u})>>] \o <<>>]
PointsTo(co, S) == \E i \in DOMAIN co.rel : Range(co.rel[i][2]) \cap S # {}
EachCo(W, Op(_)) == [W EXCEPT !.ws = [w \in DOMAIN @ |-> [@[w] EXCEPT !.cs = [i \in DOMAIN @ |-> Op(@[i])] \o <<>>]] \o <<>>]
\* add the cohort of the rule's tag list beside cohort u: [W, u]
AddCo(ri, u, before, mg, E, W0) ==
  LET rule == Rule(ri)
      new == W0.nu
      up == PosOf(W0, u)
      w == up[1]
      ts == TagList(rule.ml, E)
      wfs == SelectSeq(ts, LAMBDA t : IsWordform(t))
      co == Fresh(NewCohort(new, Last(wfs)), NonWords(ts), At(W0, up).rs[1][1].t, ri, TRUE)
      W1 == CsInsert([W0 EXCEPT !.nu = @ + 1], u, FALSE, co)
      cpar == IF mg.is THEN CoOf(W0, mg.c).dp ELSE -1
      to == IF ~mg.is THEN (IF Case.opt.acattach = 1 THEN u ELSE 0)
            ELSE IF FlagOf(rule, "DETACH") THEN 0
            ELSE IF cpar >= 0 /\ Vis(W0, cpar) THEN CoOf(W0, cpar).u
            ELSE IF ~W0.hasdep THEN 0
            ELSE IF u \notin mg.withs THEN u
            ELSE Nearest(W0, w, up[2]-1, up[2]+1, mg.withs)
      W2 == IF to = 0 THEN W1 ELSE Attach(W1, to, new, FALSE, FALSE).W
      W3 == IF ~mg.is \/ FlagOf(rule, "DETACH") THEN W2
            ELSE LET kids == SelectSeq(W2.ws[W2.cur].all, LAMBDA x : Vis(W2, x) /\ CoOf(W2, x).dp \in mg.withs)
                     Wk == AttachAll(W2, new, kids, 1, FALSE)
                     ws == InOrder(W2, mg.withs)
                     RECURSIVE T(_, _)
                     T(c, i) == IF i > Len(ws) THEN c
                                ELSE LET x == CoOf(W2, ws[i]) IN
                                     T(IF x.related THEN [TakeRels(c, x.rel, 1) EXCEPT !.related = TRUE] ELSE c, i+1)
                     p == PosOf(Wk, new)
                     c1 == T(At(Wk, p), 1)
                     pointed == \E i \in DOMAIN Cs(Wk, w) : PointsTo(Cs(Wk, w)[i], mg.withs)
                     W4 == SetCo(Wk, p, IF pointed THEN [c1 EXCEPT !.related = TRUE] ELSE c1)
                 IN [W4 EXCEPT !.ws[w].cs = [i \in DOMAIN @ |-> RenameRel(@[i], mg.withs, new)] \o <<>>]
      Wx == WithoutCo(W3, new)
      edge == Edge(Wx, Subtree(Wx, u, rule.childset1, E), before)
  IN [W |-> CsInsert(Wx, edge, before, CoOf(W3, new)), u |-> new]

(******************************** removing cohorts *************************)
RemCo(W, u, ri) ==
  LET p == PosOf(W, u)
      co == At(W, p)
      tr == Case.opt.trace = 1
      par == IF co.dp <= 0 THEN Cs(W, W.cur)[1].u ELSE co.dp
      W1 == [W EXCEPT !.ws[p[1]].cs[p[2]].rs = [i \in DOMAIN @ |-> [@[i] EXCEPT ![1] = [Hit(@, ri) EXCEPT !.del = TRUE, !.np = @ /\ ~tr]]] \o <<>>]
      W2 == AttachAll(W1, par, Rev(co.ch), 1, TRUE)
      W3 == Hide(NoMoreCh(W2, u), u, "rem", 0)
      win == W3.ws[p[1]]
  IN IF Len(win.cs) > 1 \/ p[1] = W.cur THEN W3
     ELSE LET k == p[1]
              W4 == IF k > 1 THEN [W3 EXCEPT !.ws[k-1] = [@ EXCEPT !.text = @ \o win.text \o win.tpost, !.all = @ \o Tail(win.all), !.hid = @ \o win.hid]]
                    ELSE [W3 EXCEPT !.ws[k+1] = [@ EXCEPT !.text = win.tpost \o @, !.all = <<@[1]>> \o Tail(win.all) \o Tail(@), !.hid = win.hid \o @]]
          IN [W4 EXCEPT !.ws = RemoveAt(@, k), !.cur = IF k < @ THEN @ - 1 ELSE @]
LastEnd(W) ==
  LET n == Len(Cs(W, W.cur)) IN [W EXCEPT !.ws[W.cur].cs[n] = PushEnd(@)]
RECURSIVE IgnoreAll(_, _, _, _)
IgnoreAll(W, us, i, ri) ==
  IF i = 0 THEN W ELSE IgnoreAll(Hide(HitCo(W, us[i], ri), us[i], "ign", 0), us, i-1, ri)
RemCohortRule(ri, lu, E, G) ==
  LET rule == Rule(ri)
      W == G.W
      p == PosOf(W, lu)
      co == At(W, p)
      sub == InOrder(W, Subtree(W, lu, rule.childset1, E))
      W1 == IF FlagOf(rule, "IGNORED") THEN IgnoreAll(W, sub, Len(sub), ri) ELSE RemCo(W, lu, ri)
      end == Has(co.rs[1][1].t, EndTag)
      G1 == [G EXCEPT !.W = IF end THEN LastEnd(W1) ELSE W1, !.ch = TRUE, !.reset = <<lu, p[2]>>]
  IN Forget(G1)

(******************************** the rules ********************************)
DoAddCohort(ri, a, E, G) ==
  LET G1 == Forget(TraceHit(ri, a, G))
      p == PosOf(G.W, a.u)
      x == AddCo(ri, a.u, FlagOf(Rule(ri), "BEFORE"), MgNone, E, G1.W)
  IN [G1 EXCEPT !.W = EndTagFix(x.W, x.W.cur), !.ch = TRUE, !.reset = <<a.u, p[2]>>]

RECURSIVE SplitWords(_, _, _), InsertNew(_, _, _, _), SplitAttach(_, _, _, _, _)
\* tags grouped by wordform
SplitWords(ts, i, acc) ==
  IF i > Len(ts) THEN acc
  ELSE IF IsWordform(ts[i]) THEN SplitWords(ts, i+1, Append(acc, <<ts[i]>>))
  ELSE SplitWords(ts, i+1, [acc EXCEPT ![Len(acc)] = Append(@, ts[i])])
InsertNew(W, after, cs, i) == IF i > Len(cs) THEN W ELSE InsertNew(CsInsert(W, after, FALSE, cs[i]), cs[i].u, cs, i+1)
SplitAttach(W, src, us, sd, i) ==
  IF i > Len(us) THEN W
  ELSE
  LET n == Len(us)
      takes == sd[i][1] = 0 \/ (sd[i][1] = -1 /\ i = n)
      kids == CoOf(W, src).ch
      W1 == IF takes THEN AttachAll(W, us[i], Rev(kids), 1, TRUE) ELSE W
      d == CoOf(W1, src).dp
      toPar == sd[i][2] = 0 \/ (sd[i][2] = -1 /\ i = 1)
      W2 == IF toPar THEN (IF d >= 0 /\ Vis(W1, d) THEN Attach(W1, CoOf(W1, d).u, us[i], TRUE, TRUE).W ELSE W1)
            ELSE Attach(W1, us[IF sd[i][2] = -1 THEN i-1 ELSE sd[i][2]], us[i], TRUE, TRUE).W
  IN SplitAttach(W2, src, us, sd, i+1)
DoSplit(ri, a, E, G) ==
  LET rule == Rule(ri)
      W == G.W
      p == PosOf(W, a.u)
      src == At(W, p)
      ws == SplitWords(TagList(rule.ml, E), 1, <<>>)
      n == Len(ws)
      us == [i \in 1..n |-> W.nu + i - 1] \o <<>>
      fresh == [i \in 1..n |-> Fresh(NewCohort(us[i], ws[i][1]), Tail(ws[i]), src.rs[1][1].t, ri, FALSE)] \o <<>>
      cs == [fresh EXCEPT ![n].text = src.text]
      W1 == InsertNew([W EXCEPT !.nu = @ + n, !.ws[p[1]].cs[p[2]].text = <<>>], a.u, cs, 1)
      W2 == SplitAttach(W1, a.u, us, rule.sd, 1)
      ru == us[IF rule.rt = 0 THEN (LET C == { i \in 1..n : rule.sd[i][1] = 0 } IN IF C = {} THEN n ELSE MinS(C)) ELSE rule.rt]
      W3 == IF ~src.related THEN W2
            ELSE LET q == PosOf(W2, ru)
                     Wq == [SetCo(W2, q, [SetRelated(At(W2, q)) EXCEPT !.rel = src.rel]) EXCEPT !.ws[p[1]].cs[p[2]].rel = <<>>]
                 IN EachCo(Wq, LAMBDA c : RenameRel(c, {a.u}, ru))
      W4 == [W3 EXCEPT !.ws[p[1]].cs[p[2]].rs = [i \in DOMAIN @ |-> [@[i] EXCEPT ![1] = [Hit(@, ri) EXCEPT !.del = TRUE]]] \o <<>>]
      W5 == Hide(NoMoreCh(W4, a.u), a.u, "rem", 0)
      W6 == IF Has(src.rs[1][1].t, EndTag) THEN LastEnd(W5) ELSE W5
  IN [Forget(G) EXCEPT !.W = EndTagFix(W6, W6.cur), !.ch = TRUE, !.reset = <<a.u, p[2]>>]

\* the text of a merged cohort loses the spaces that its part of the new wordform has: <<lines, spaces left>>
RECURSIVE DropSp(_, _, _), DropSpL(_, _, _)
DropSp(s, i, n) == IF i > Len(s) \/ n = 0 THEN <<SubSeq(s, i, Len(s)), n>>
                   ELSE LET y == DropSp(s, i+1, IF Ch(s, i) = " " THEN n-1 ELSE n) IN
                        <<(IF Ch(s, i) = " " THEN "" ELSE Ch(s, i)) \o y[1], y[2]>>
DropSpL(ls, i, n) == IF i > Len(ls) \/ n = 0 THEN <<SubSeq(ls, i, Len(ls)), n>>
                     ELSE LET x == DropSp(ls[i], 1, n)
                              y == DropSpL(ls, i+1, x[2]) IN << <<x[1]>> \o y[1], y[2]>>
RECURSIVE MergeRem(_, _, _, _, _), MergeFind(_, _, _, _, _, _)
MergeRem(W, us, i, n, ri) ==
  IF i > Len(us) THEN W
  ELSE LET p == PosOf(W, us[i])
           x == DropSpL(At(W, p).text, 1, n)
       IN MergeRem(RemCo([W EXCEPT !.ws[p[1]].cs[p[2]].text = x[1]], us[i], ri), us, i+1, x[2], ri)
\* [ok, withs, at, E]
MergeFind(ts, k, tu, withs, at, E) ==
  IF k > Len(ts) THEN [ok |-> TRUE, withs |-> withs, at |-> at, E |-> E]
  ELSE LET E1 == [TE(E) EXCEPT !.atc = 0, !.ath = 0, !.ats = 0, !.mw = 0, !.mark = tu]
           x == RCT(PosOf(E.W, tu), TestNo(ts[k]), <<>>, E1)
           d == At(x.E.W, x.E.deep).u
       IN IF x.p = <<>> \/ x.E.deep = <<>> THEN [ok |-> FALSE, withs |-> withs, at |-> at, E |-> x.E]
          ELSE LET w2 == IF x.E.mw # 0 THEN withs \cup {x.E.mw} ELSE IF x.E.atc # 0 THEN withs ELSE withs \cup {d}
               IN MergeFind(ts, k+1, tu, w2, IF x.E.atc # 0 THEN x.E.atc ELSE at, x.E)
DoMerge(ri, u, a, E, G0) ==
  LET rule == Rule(ri)
      G == Forget(G0)
      m == MergeFind(rule.dep_tests, 1, a.u, {a.u}, a.u, [E EXCEPT !.W = G.W])
      p == PosOf(G.W, u)
      x == AddCo(ri, m.at, FALSE, [is |-> TRUE, withs |-> m.withs, c |-> u], m.E, G.W)
      wfs == SelectSeq(TagList(rule.ml, m.E), LAMBDA t : IsWordform(t))
      nsp == Len(SelectSeq(Chars(Last(wfs)), LAMBDA c : c = " "))
      W1 == MergeRem(x.W, InOrder(x.W, m.withs), 1, nsp, ri)
      cs == Cs(W1, W1.cur)
      n == Len(cs)
      W2 == IF Has(cs[n].rs[1][1].t, EndTag) THEN W1
            ELSE [W1 EXCEPT !.ws[W1.cur].cs = [i \in DOMAIN @ |-> IF i = n THEN PushEnd(@[i]) ELSE IF i = n-1 THEN DropEnd(@[i]) ELSE @[i]] \o <<>>]
  IN IF ~m.ok THEN [G EXCEPT !.stop = TRUE]
     ELSE [G EXCEPT !.W = W2, !.ch = TRUE, !.reset = <<u, p[2]>>, !.at = x.u]

RECURSIVE CopyChains(_, _, _, _, _, _)
CopyChains(co, src, i, ts, ex, ri) ==
  IF i > Len(src) THEN co
  ELSE LET cp(r) == LET all == r.t \o SelectSeq(ts, LAMBDA t : t # "*")
                        r0 == AddTags([NewReading(NextNum(co)) EXCEPT !.hit = <<ri>>], NonMap(all), 1)
                        s == SplitMap(MapsOf(all), r0, <<>>, co.rs, FALSE)
                    IN s
           ss == [k \in DOMAIN src[i] |-> cp(src[i][k])] \o <<>>
           ch == [k \in DOMAIN ss |-> ss[k].r] \o <<>>
           new == Cat([k \in DOMAIN ss |-> ss[k].new])
       IN CopyChains([co EXCEPT !.rs = @ \o new \o <<ch>>], src, i+1, ts, ex, ri)
DoCopyCohort(ri, u, a, E, G) ==
  LET rule == Rule(ri)
      W == G.W
      f == FindTarget(TestNo(rule.dep_target), u, [E EXCEPT !.W = W])
      y == DepTests(rule.dep_tests, 1, f.at, f.E)
  IN IF f.at = 0 THEN G
     ELSE IF ~y.ok \/ f.at = u THEN G
     ELSE
     LET rev == FlagOf(rule, "REVERSE")
         from == IF rev THEN f.at ELSE u
         to == IF rev THEN u ELSE f.at
         src == CoOf(W, from)
         p == PosOf(W, u)
         tp == PosOf(W, to)
         ts == TagList(rule.ml, y.E)
         r0 == CoOf(W, a.u).rs[a.i][a.k]
         ex == IF rule.sl = <<>> THEN {} ELSE ExceptTags(rule.sl, r0, CoOf(W, a.u), y.E) \cup Range(TagList(rule.sl, y.E))
         c1 == CopyChains(NewCohort(W.nu, src.w), src.rs, 1, ts, ex, ri)
         c2 == IF c1.rs # <<>> THEN c1
               ELSE LET mg == MagicReading(c1) IN
                    [c1 EXCEPT !.rs = << << IF Case.opt.trace = 1 THEN [mg EXCEPT !.np = FALSE, !.hit = <<ri>>] ELSE mg >> >>]
         c3 == [c2 EXCEPT !.rs = [i \in DOMAIN @ |-> [k \in DOMAIN @[i] |-> DelAll(@[i][k], ex)] \o <<>>] \o <<>>, !.wt = src.wt]
         before == FlagOf(rule, "BEFORE")
         edge == Edge(W, Subtree(W, to, IF rev THEN rule.childset1 ELSE rule.childset2, y.E), before)
         W1 == CsInsert([W EXCEPT !.nu = @ + 1], edge, before, c3)
         W2 == Attach(W1, edge, c3.u, FALSE, FALSE).W
     IN [Forget(G) EXCEPT !.W = EndTagFix(W2, tp[1]), !.ch = TRUE, !.reset = <<u, p[2]>>]

(* dependencies and relations *)
LinkAct(ri, u, c, at, E, G) ==
  LET rule == Rule(ri)
      ty == rule.type
      rev == FlagOf(rule, "REVERSE")
      t == IF rev THEN at ELSE u
      x == IF rev THEN u ELSE at
      k == SubIx(CoOf(G.W, u).rs[c.i], rule.sub)
      shown(G1) == LET G2 == Forget(TraceHit(ri, [u |-> u, i |-> c.i, k |-> k], G1))
                       p == PosOf(G2.W, u)
                   IN [G2 EXCEPT !.W.ws[p[1]].cs[p[2]].rs[c.i][k].np = FALSE, !.ch = TRUE]
      kind == SubSeq(ty, 1, 3)
  IN
  IF ty \in {"SETPARENT", "SETCHILD"}
  THEN LET at1 == Attach([G.W EXCEPT !.hasdep = TRUE], IF ty = "SETPARENT" THEN x ELSE t, IF ty = "SETPARENT" THEN t ELSE x,
                         FlagOf(rule, "ALLOWLOOP"), FlagOf(rule, "ALLOWCROSS"))
           G1 == [G EXCEPT !.W = at1.W]
       IN [G |-> IF at1.ok THEN shown(G1) ELSE G1, done |-> at1.ok]
  ELSE LET many == ty \in {"ADDRELATIONS", "SETRELATIONS", "REMRELATIONS"}
           W0 == [G.W EXCEPT !.hasrel = TRUE]
           ns == TagList(rule.ml, E)
           y1 == RelChanges(kind, W0, t, ns, 1, x, FALSE)
           W1 == IF many \/ kind = "REM" THEN y1.W ELSE LET q == PosOf(y1.W, x) IN SetCo(y1.W, q, SetRelated(At(y1.W, q)))
           y2 == IF many THEN RelChanges(kind, W1, x, TagList(rule.sl, E), 1, t, y1.did) ELSE [W |-> W1, did |-> y1.did]
           G1 == [G EXCEPT !.W = y2.W]
       IN [G |-> IF y2.did THEN shown(G1) ELSE G1, done |-> TRUE]
RECURSIVE LinkLoop(_, _, _, _, _, _, _, _)
LinkLoop(ri, u, c, tu, round, seen, E, G) ==
  LET rule == Rule(ri)
      T0 == TestNo(rule.dep_target)
      T == IF round = 1 \/ T0.off = 0 THEN T0 ELSE [T0 EXCEPT !.off = IF @ < 0 THEN -1 ELSE 1]
      f == FindTarget(T, tu, [E EXCEPT !.W = G.W])
  IN IF f.at = 0 THEN G
     ELSE LET y == DepTests(rule.dep_tests, 1, f.at, f.E)
              at == IF y.E.atc # 0 THEN y.E.atc ELSE f.at
              d == IF y.ok THEN LinkAct(ri, u, c, at, y.E, G) ELSE [G |-> G, done |-> FALSE]
          IN IF d.done \/ f.sb \/ FlagOf(rule, "NEAREST") \/ f.at \in seen \cup {tu} THEN d.G
             ELSE LinkLoop(ri, u, c, at, round+1, seen \cup {tu, f.at}, [y.E EXCEPT !.ut = E.ut, !.us = E.us], d.G)

DoSwitchParent(ri, a, E, G) ==
  LET rule == Rule(ri)
      W == G.W
      par == CoOf(W, CoOf(W, a.u).dp).u
      gp == CoOf(W, par).dp
      cs == Cs(W, W.cur)
      sib == InOrder(W, { cs[i].u : i \in { j \in DOMAIN cs : cs[j].u # a.u /\ IsPar(W, cs[j].u, par) /\ CoMatches(W, <<W.cur, j>>, rule.childset1, E) } })
      RECURSIVE DetAll(_, _)
      DetAll(X, i) == IF i > Len(sib) THEN X ELSE DetAll(Detach(X, sib[i]), i+1)
      W1 == DetAll(Detach(Detach(W, a.u), par), 1)
      W2 == IF gp >= 0 /\ Vis(W, gp) THEN Attach(W1, CoOf(W1, gp).u, a.u, FALSE, FALSE).W ELSE W1
      W3 == Attach(W2, a.u, par, FALSE, FALSE).W
  IN [Forget(G) EXCEPT !.W = AttachAll(W3, a.u, sib, 1, FALSE)]

DoMove(ri, u, a, E, G) ==
  LET rule == Rule(ri)
      W == G.W
      f == FindTarget(TestNo(rule.dep_target), u, [E EXCEPT !.W = W])
      y == DepTests(rule.dep_tests, 1, f.at, f.E)
      same == [G EXCEPT !.stop = TRUE]
      w == W.cur
      win == W.ws[w]
  IN IF f.at = 0 THEN same
     ELSE IF f.p[1] # w \/ ~y.ok \/ f.at = u THEN same
     ELSE
     LET rev == FlagOf(rule, "REVERSE")
         co == IF rev THEN f.at ELSE u
         at == IF rev THEN u ELSE f.at
         ci == PosOf(W, co)[2]
         ai == PosOf(W, at)[2]
         \* a cohort that only moves past hidden ones has not moved
         done(Wn, us) == IF [i \in DOMAIN Wn.ws[w].cs |-> Wn.ws[w].cs[i].u] = [i \in DOMAIN win.cs |-> win.cs[i].u]
                         THEN [same EXCEPT !.W = Wn]
                         ELSE [same EXCEPT !.W = [Wn EXCEPT !.ws[w].cs = [i \in DOMAIN @ |-> IF @[i].u \in us THEN [@[i] EXCEPT !.rs = HitMain(@, ri)] ELSE @[i]] \o <<>>],
                                           !.ch = TRUE]
     IN IF rule.type = "SWITCH"
        THEN IF ai = 1 THEN same
             ELSE done([W EXCEPT !.ws[w] = [@ EXCEPT !.cs = [@ EXCEPT ![ci] = win.cs[ai], ![ai] = win.cs[ci]],
                          !.all = [@ EXCEPT ![IndexOf(@, co)] = at, ![IndexOf(@, at)] = co]]], {co, at})
        ELSE
        LET ed0 == Subtree(W, at, rule.childset2, y.E)
            cs0 == Subtree(W, co, rule.childset1, y.E)
            over == ed0 \cap cs0 # {}
            below == IsChildOf(W, co, at)
            ed == IF over /\ below THEN ed0 \ cs0 ELSE ed0
            mv == IF over /\ ~below THEN cs0 \ ed0 ELSE cs0
        IN IF ed = {} \/ mv = {} THEN same
           ELSE
           LET before == FlagOf(rule, "BEFORE")
               block == InOrder(W, mv)
               blockCo == [i \in DOMAIN block |-> CoOf(W, block[i])] \o <<>>
               cs1 == SelectSeq(win.cs, LAMBDA c : c.u \notin mv)
               all1 == SelectSeq(win.all, LAMBDA x : x \notin mv)
               edge == Edge(W, ed, before)
               k0 == CHOOSE i \in DOMAIN cs1 : cs1[i].u = edge
               k == IF before THEN Max2(k0, 2) ELSE k0 + 1
               j0 == IndexOf(all1, edge)
               j == IF before THEN Max2(j0, 2) ELSE j0 + 1
           IN done([W EXCEPT !.ws[w] = [@ EXCEPT !.cs = InsertAt(cs1, k, blockCo), !.all = InsertAt(all1, j, block)]], mv)

StructReading(ri, u, c, oc, a, E, G) ==
  LET ty == Rule(ri).type IN
  CASE ty = "ADDCOHORT" -> DoAddCohort(ri, a, E, G)
    [] ty = "SPLITCOHORT" -> DoSplit(ri, a, E, G)
    [] ty = "MERGECOHORTS" -> DoMerge(ri, u, a, E, G)
    [] ty = "COPYCOHORT" -> DoCopyCohort(ri, u, a, E, G)
    [] ty = "REMPARENT" -> LET G1 == TraceHit(ri, a, G) IN [Forget(G1) EXCEPT !.W = Detach(@, a.u), !.stop = TRUE]
    [] ty = "SWITCHPARENT" -> LET G1 == TraceHit(ri, a, G) IN [DoSwitchParent(ri, a, E, G1) EXCEPT !.stop = TRUE]
    [] ty \in {"MOVE", "SWITCH"} -> DoMove(ri, u, a, E, G)
    [] OTHER -> [LinkLoop(ri, u, c, u, 1, {}, E, G) EXCEPT !.stop = TRUE]
=============================================================================
