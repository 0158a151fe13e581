------------------------------ MODULE CG3Engine ------------------------------
(***************************************************************************)
(* The state machine: reading the stream, delimiting windows, running the *)
(* sections over a window rule by rule, and printing.                      *)
(*                                                                         *)
(* S.pc: "read" take the next input item   "pass" begin a pass over the    *)
(*       current window   "stage" choose what to run next   "rule" apply   *)
(*       one rule   "encl" unpack enclosures   "wdone" the window is       *)
(*       finished   "flush"/"eof" drain the windows   "done"               *)
(***************************************************************************)
EXTENDS CG3Struct

VARIABLE S

(**************************** which readings *******************************)
NeverMapped == {"MAP", "ADD", "REPLACE"}
ImmCounted == {"PROTECT", "ADD", "MAP", "REPLACE", "SELECT", "REMOVE", "IFF", "SUBSTITUTE", "UNMAP"}
NoCtx == [nest |-> FALSE, mark |-> 0, ctx |-> <<>>, wtgt |-> 0, app |-> 0]

RECURSIVE RunTests(_, _, _, _, _)
\* result [ok, E]
RunTests(rule, k, u, p, E) ==
  IF k > Len(rule.tests) THEN [ok |-> TRUE, E |-> E]
  ELSE LET T == TestNo(rule.tests[k])
           with == rule.type = "WITH"
           org == IF ~Fl(T, fPASSO) /\ (Case.opt.nopo = 1 \/ Fl(T, fNOPO)) THEN p ELSE <<>>
           E1 == [E EXCEPT !.mark = IF FlagOf(rule, "RESETX") \/ ~FlagOf(rule, "REMEMBERX") THEN u ELSE @,
                           !.sb = FALSE, !.dds = {}, !.tl = <<>>, !.tmin = <<>>, !.tmax = <<>>, !.intm = FALSE,
                           !.deep = <<>>, !.mw = IF with THEN 0 ELSE @]
           x == RCT(p, T, org, E1)
           c == IF x.E.mw # 0 THEN x.E.mw
                ELSE IF with /\ x.E.deep # <<>> THEN At(x.E.W, x.E.deep).u ELSE 0
           E2 == [x.E EXCEPT !.ctx = Append(@, c)]
       IN IF x.p = <<>> THEN [ok |-> FALSE, E |-> E2] ELSE RunTests(rule, k+1, u, p, E2)

RECURSIVE EvalLoop(_, _, _, _, _, _, _)
\* A: [mt, ok : Seq(BOOLEAN), cs : Seq([i, E]), na, nf, sel, E]
EvalLoop(ri, u, p, co, i, oc, A) ==
  IF i > Len(co.rs) THEN A
  ELSE
  LET rule == Rule(ri)
      ch == co.rs[i]
      skip == EvalLoop(ri, u, p, co, i+1, oc, [A EXCEPT !.mt = Append(@, FALSE), !.ok = Append(@, FALSE)])
  IN IF ~SubOK(ch, rule.sub) THEN skip
     ELSE LET r == SubR(ch, rule.sub)
              E0 == [A.E EXCEPT !.ai = i] IN
     IF (r.map /\ (rule.type \in NeverMapped \/ FlagOf(rule, "NOMAPPED"))) \/ (r.np /\ Case.opt.magic = 0)
     THEN EvalLoop(ri, u, p, co, i+1, oc, [A EXCEPT !.mt = Append(@, FALSE), !.ok = Append(@, FALSE), !.E = E0])
     ELSE IF r.imm /\ rule.type # "UNPROTECT"
     THEN EvalLoop(ri, u, p, co, i+1, oc,
            [A EXCEPT !.mt = Append(@, A.sel), !.ok = Append(@, A.sel), !.E = E0,
                      !.cs = Append(@, [i |-> i, E |-> E0]), !.nf = @ + 1,
                      !.na = IF rule.type \in ImmCounted THEN @ + 1 ELSE @])
     ELSE
     LET E1 == [E0 EXCEPT !.rx = <<>>, !.ut = <<>>, !.us = <<>>, !.lb = "", !.lw = "", !.lt = "",
                          !.same = PlainKey(r), !.mark = IF oc.mark # 0 THEN oc.mark ELSE u]
         m == MatchSet(r, co, rule.target, FALSE, E1)
     IN IF ~m.ok
        THEN LET E2 == [m.E EXCEPT !.rx = <<>>] IN
             EvalLoop(ri, u, p, co, i+1, oc,
               [A EXCEPT !.mt = Append(@, FALSE), !.ok = Append(@, FALSE), !.E = E2, !.cs = Append(@, [i |-> i, E |-> E2])])
        ELSE
        LET t == RunTests(rule, 1, u, p, [m.E EXCEPT !.ctx = <<>>])
            becomes == t.ok /\ rule.type = "IFF" /\ ~A.sel
            E2 == IF t.ok THEN t.E ELSE [t.E EXCEPT !.rx = <<>>]
            immb == { j \in DOMAIN A.mt : SubOK(co.rs[j], rule.sub) /\ SubR(co.rs[j], rule.sub).imm }
            mt2 == IF becomes THEN [j \in DOMAIN A.mt |-> A.mt[j] \/ j \in immb] \o <<>> ELSE A.mt
            ok2 == IF becomes THEN [j \in DOMAIN A.ok |-> A.ok[j] \/ j \in immb] \o <<>> ELSE A.ok
        IN EvalLoop(ri, u, p, co, i+1, oc,
             [A EXCEPT !.mt = Append(mt2, TRUE), !.ok = Append(ok2, t.ok), !.E = E2,
                       !.cs = Append(@, [i |-> i, E |-> E2]), !.nf = @ + 1,
                       !.na = IF t.ok THEN @ + 1 ELSE @, !.sel = @ \/ becomes])

EvalCohort(ri, u, G, oc) ==
  LET p == PosOf(G.W, u)
      rule == Rule(ri)
      E == [NoEnv EXCEPT !.W = G.W, !.tgt = u, !.octx = oc.ctx, !.capu = FlagOf(rule, "CAPTURE_UNIF"),
                         !.wtgt = IF oc.wtgt # 0 THEN oc.wtgt ELSE IF rule.type = "WITH" THEN u ELSE 0]
  IN EvalLoop(ri, u, p, At(G.W, p), 1, oc,
       [mt |-> <<>>, ok |-> <<>>, cs |-> <<>>, na |-> 0, nf |-> 0, sel |-> rule.type = "SELECT", E |-> E])

(**************************** may the rule run here ************************)
Eligible(ri, u, G) ==
  LET rule == Rule(ri)
      W == G.W
      p == PosOf(W, u)
  IN /\ p # <<>> /\ p[1] = W.cur /\ p[2] > 1
     /\ LET co == At(W, p)
            n == Len(co.rs)
            parl == W.par.lp
        IN /\ n > 0
           /\ rule.wf = "" \/ rule.wf = co.w
           /\ ~(rule.type = "RESTORE" /\ (IF FlagOf(rule, "DELAYED") THEN co.dly
                                          ELSE IF FlagOf(rule, "IGNORED") THEN co.ign ELSE co.del) = <<>>)
           /\ IF n = 1
              THEN /\ rule.type # "SELECT"
                   /\ rule.type \in {"REMOVE", "IFF"} => ~co.rs[1][1].np /\ MayEmpty(rule)
              ELSE ~(rule.type = "UNMAP" /\ SafeUnmap(rule))
           /\ ~(rule.type = "DELIMIT" /\ p[2] = Len(Cs(W, W.cur)))
           /\ FlagOf(rule, "ENCL_INNER") => parl # 0 /\ p[2]-1 >= parl /\ p[2]-1 <= W.par.rp
           /\ (~FlagOf(rule, "ENCL_INNER") /\ FlagOf(rule, "ENCL_OUTER")) => ~(parl # 0 /\ p[2]-1 >= parl /\ p[2]-1 <= W.par.rp)
           /\ ~(((rule.type = "SETPARENT" /\ FlagOf(rule, "SAFE")) \/ FlagOf(rule, "NOPARENT")) /\ co.dp >= 0)
           /\ ~(rule.type \in {"REMPARENT", "SWITCHPARENT"} /\ co.dp < 0)
           /\ <<ri, u>> \notin G.tried

(**************************** acting on readings ***************************)
RECURSIVE ActReading(_, _, _, _, _), Process(_, _, _, _, _, _), RunList(_, _, _, _, _), RunSubs(_, _, _, _, _)

NestSet(ri, oc, W) ==
  LET us == {oc.app} \cup (LET Sx == Case.sets[Rule(ri).target] IN
              IF Sx.k # "list" THEN {}
              ELSE { oc.ctx[Sx.m[i][1].i] : i \in { j \in DOMAIN Sx.m : Sx.m[j][1].k = "ctx" /\ Sx.m[j][1].i <= Len(oc.ctx) } })
      cs == Cs(W, W.cur)
  IN SelectSeq([i \in DOMAIN cs |-> cs[i].u] \o <<>>, LAMBDA u : u \in us)

\* run the nested rules of a WITH one after another; any: did any of them change something
RunSubs(subs, k, G, oc, any) ==
  IF k > Len(subs) THEN [G EXCEPT !.ch = any]
  ELSE LET G1 == RunList(subs[k], NestSet(subs[k], oc, G.W), 1, [G EXCEPT !.ch = FALSE], oc) IN
       IF G1.ch /\ FlagOf(Rule(subs[k]), "REPEAT")
       THEN RunSubs(subs, k, G1, oc, TRUE)
       ELSE RunSubs(subs, k+1, G1, oc, any \/ G1.ch)

ActReading(ri, u, c, oc, G) ==
  LET rule == Rule(ri)
      E == [c.E EXCEPT !.W = G.W]
      a == ApplyTo(ri, u, c.i, E)
      ty == rule.type
      r == CoOf(G.W, a.u).rs[a.i][a.k]
  IN
  CASE ty = "SELECT" \/ (ty = "IFF" /\ c.ok) -> [Forget(G) EXCEPT !.sel = Append(@, a.i)]
    [] ty \in {"REMOVE", "IFF"} ->
         IF ty = "REMOVE" /\ FlagOf(rule, "UNMAPLAST") /\ Len(G.rem) = Len(CoOf(G.W, a.u).rs) - 1
         THEN LET x == DoUnmapR(r, ri)
                  p == PosOf(G.W, a.u) IN
              [Forget(G) EXCEPT !.W = PutRd(G.W, p, a.i, a.k, x.r), !.ch = @ \/ x.c]
         ELSE [Forget(TraceHit(ri, a, G)) EXCEPT !.rem = Append(@, a.i)]
    [] ty \in {"PROTECT", "UNPROTECT"} ->
         LET G1 == TraceHit(ri, a, G)
             p == PosOf(G.W, a.u) IN
         [(IF ty = "PROTECT" \/ r.imm THEN Forget(G1) ELSE G1) EXCEPT !.W.ws[p[1]].cs[p[2]].rs[a.i][a.k].imm = (ty = "PROTECT")]
    [] ty = "UNMAP" ->
         LET x == DoUnmapR(r, ri)
             p == PosOf(G.W, a.u) IN
         IF x.c THEN [Forget(G) EXCEPT !.W = PutRd(G.W, p, a.i, a.k, x.r), !.ch = TRUE] ELSE G
    [] ty \in {"ADD", "MAP"} -> DoAdd(rule, ri, a, G, E)
    [] ty = "REPLACE" -> DoReplace(rule, ri, a, G, E)
    [] ty = "SUBSTITUTE" -> DoSubst(rule, ri, a, G, E)
    [] ty = "APPEND" -> DoAppend(rule, ri, a, G, E)
    [] ty = "COPY" -> DoCopy(rule, ri, a, G, E)
    [] ty = "RESTORE" -> DoRestore(rule, ri, a, G, E)
    [] ty = "WITH" ->
         LET G1 == TraceHit(ri, a, G)
             noc == [nest |-> TRUE, mark |-> c.E.mark, ctx |-> c.E.ctx, wtgt |-> c.E.wtgt, app |-> a.u]
             G2 == RunSubs(rule.subs, 1, [G1 EXCEPT !.sel = <<>>, !.rem = <<>>], noc, FALSE)
         IN [G2 EXCEPT !.ch = @ \/ G.ch, !.stop = TRUE, !.reset = <<>>, !.sel = <<>>, !.rem = <<>>]
    [] ty \in StructTypes -> StructReading(ri, u, c, oc, a, E, G)
    [] ty = "REMCOHORT" -> G
    [] OTHER -> TraceHit(ri, a, G)

\* what happens once per cohort, after the reading loop; lu: the cohort acted on last, E its environment
ActCohort(ri, lu, E0, G) ==
  LET rule == Rule(ri)
      ty == rule.type
      E == [E0 EXCEPT !.W = G.W]
  IN
  CASE ty = "SELECT" \/ (ty = "IFF" /\ G.sel # <<>>) -> [DoSelect(rule, ri, lu, G) EXCEPT !.sel = <<>>, !.rem = <<>>]
    [] ty \in {"REMOVE", "IFF"} -> [DoRemove(rule, ri, lu, G) EXCEPT !.sel = <<>>, !.rem = <<>>]
    [] ty = "JUMP" ->
         LET n == TagList(rule.ml, E)[1] IN
         IF AssocHas(Case.anchors, n) THEN [G EXCEPT !.jump = AssocGet(Case.anchors, n)] ELSE G
    [] ty = "SETVARIABLE" -> DoSetVar(rule, G, E)
    [] ty = "REMVARIABLE" -> DoRemVar(rule, G, E)
    [] ty = "DELIMIT" ->
         LET p == PosOf(G.W, lu) IN
         IF p[2] < Len(Cs(G.W, p[1])) THEN [G EXCEPT !.W = DelimitAt(@, p), !.delim = TRUE, !.ch = TRUE] ELSE G
    [] ty = "REMCOHORT" -> RemCohortRule(ri, lu, E, G)
    [] OTHER -> G

\* contexts k.. of the evaluated readings
Process(ri, u, A, k, last, G0) ==
  LET rule == Rule(ri) IN
  IF k > Len(A.cs) \/ G0.stop \/ G0.reset # <<>>
  THEN LET lu == IF G0.at # 0 THEN G0.at ELSE IF last.E.atc # 0 THEN last.E.atc ELSE u
           G1 == ActCohort(ri, lu, last.E, [G0 EXCEPT !.stop = FALSE])
       IN G1
  ELSE LET c == A.cs[k] IN
       IF ~A.mt[c.i] \/ (~A.ok[c.i] /\ rule.type # "IFF") THEN Process(ri, u, A, k+1, last, G0)
       ELSE Process(ri, u, A, k+1, c, ActReading(ri, u, [i |-> c.i, E |-> c.E, ok |-> A.ok[c.i]], A.oc, G0))

RunList(ri, todo, k, G, oc) ==
  IF k > Len(todo) THEN G
  ELSE
  LET u == todo[k] IN
  IF ~Eligible(ri, u, G) THEN RunList(ri, todo, k+1, G, oc)
  ELSE
  LET rule == Rule(ri)
      G1 == [G EXCEPT !.tried = @ \cup {<<ri, u>>}, !.stop = FALSE, !.reset = <<>>, !.sel = <<>>, !.rem = <<>>, !.at = 0]
      A == EvalCohort(ri, u, G1, oc)
      n == Len(CoOf(G.W, u).rs)
      none == A.na = 0 /\ (A.nf = 0 \/ rule.type # "IFF")
      all == A.na = n /\ ((rule.type = "SELECT" \/ (rule.type = "IFF" /\ A.sel))
                          \/ ((rule.type = "REMOVE" \/ (rule.type = "IFF" /\ ~A.sel)) /\ ~MayEmpty(rule)))
  IN IF none \/ all THEN RunList(ri, todo, k+1, G1, oc)
     ELSE LET B == [mt |-> A.mt, ok |-> A.ok, cs |-> A.cs, oc |-> oc]
              G2 == Process(ri, u, B, 1, [i |-> 0, E |-> A.E], G1)
          IN IF G2.jump # 0 THEN G2
             ELSE IF G2.reset # <<>>
             THEN LET cs == Cs(G2.W, G2.W.cur)
                      q == PosOf(G2.W, G2.reset[1])
                      from == IF q # <<>> /\ q[1] = G2.W.cur THEN q[2] + 1 ELSE G2.reset[2]
                      rest == IF oc.nest THEN SelectSeq(NestSet(ri, oc, G2.W), LAMBDA v : PosOf(G2.W, v)[2] >= from)
                              ELSE [j \in 1..(Len(cs) + 1 - from) |-> cs[from + j - 1].u] \o <<>>
                  IN RunList(ri, rest, 1, [G2 EXCEPT !.reset = <<>>], oc)
             ELSE RunList(ri, todo, k+1, G2, oc)

WindowUs(W) == [i \in 1..(Len(Cs(W, W.cur)) - 1) |-> Cs(W, W.cur)[i+1].u] \o <<>>
RunRule(ri, W, tried) ==
  RunList(ri, WindowUs(W), 1,
    [W |-> W, tried |-> tried, ch |-> FALSE, jump |-> 0, delim |-> FALSE, stop |-> FALSE, reset |-> <<>>,
     sel |-> <<>>, rem |-> <<>>, at |-> 0], NoCtx)

(******************************** printing *********************************)
Opt == Case.opt
RuleText(h) ==
  IF h < 0 THEN "ENCL:" \o ToString(-h)
  ELSE LET r == Rule(h) IN
       r.type2
       \o (IF r.relargs = "" THEN "" ELSE "(" \o r.relargs \o ")")
       \o (IF Opt.tno = 1 /\ r.name # "" THEN "" ELSE ":" \o ToString(r.line))
       \o (IF r.name = "" THEN "" ELSE ":" \o r.name)

IsRelTag(t) == StartsWith(t, "R:") \/ StartsWith(t, "ID:")
WithSpace(ts) == Join([i \in DOMAIN ts |-> " " \o ts[i]] \o <<>>)

PadTo(n, w) == LET s == ToString(n) IN IF Len(s) >= w THEN s ELSE SubSeq("0000000000", 1, w - Len(s)) \o s
DepText(W, w, i, co) ==
  LET pp == IF co.dp < 0 THEN <<w, i>>
            ELSE IF co.dp = 0 THEN <<w, 1>>
            ELSE LET q == PosOf(W, co.dp) IN IF q = <<>> THEN <<w, i>> ELSE q
      dg == Len(ToString(Opt.hard))
      sep == IF Opt.unitags = 1 THEN "→" ELSE "->"
  IN IF Opt.dabs = 1 THEN " #" \o ToString(co.u - 1) \o sep \o ToString(At(W, pp).u - 1)   \* numbered from 0
     ELSE IF ~W.spanned THEN " #" \o ToString(i-1) \o sep \o ToString(pp[2]-1)
     ELSE " #" \o ToString(W.ws[w].wn) \o PadTo(i-1, dg) \o sep \o ToString(W.ws[pp[1]].wn) \o PadTo(pp[2]-1, dg)
RECURSIVE RelText(_, _)
RelText(rel, i) ==
  IF i > Len(rel) THEN ""
  ELSE Join([j \in DOMAIN rel[i][2] |-> " R:" \o rel[i][1] \o ":" \o ToString(rel[i][2][j] - 1)] \o <<>>) \o RelText(rel, i+1)

\* relations are listed in no particular order: a fixed one here, and the observed lines are put in the same one
RelName(n) == IF Has(Case.relnames, n) THEN IndexOf(Case.relnames, n) ELSE 999
RelSorted(rel) == SortBy(LAMBDA e : RelName(e[1]), SelectSeq(rel, LAMBDA e : e[2] # <<>>))

Kept(W, t, bf, w) ==
  /\ ~(t = EndTag /\ Opt.endtags = 0) /\ t # BeginTag /\ t # bf /\ t # w
  /\ ~(IsDepTag(t) /\ W.hasdep) /\ ~(IsRelTag(t) /\ W.hasrel)
RECURSIVE ReadingLines(_, _, _, _, _, _, _, _)
ReadingLines(W, w, i, co, ch, k, del, removed) ==
  IF k > Len(ch) THEN <<>>
  ELSE LET r == ch[k]
           ts0 == SelectSeq(r.t, LAMBDA t : Kept(W, t, r.bf, co.w))
           ts == IF Opt.uniq = 1 THEN Uniq(ts0) ELSE ts0
           s == (IF del THEN ";" ELSE "") \o Join([j \in 1..k |-> "\t"] \o <<>>) \o r.bf
                \o WithSpace(NonMap(ts)) \o WithSpace(MapsOf(ts))
                \o (IF W.hasdep /\ ~removed THEN DepText(W, w, i, co) ELSE "")
                \o (IF Opt.printids = 1 \/ co.related THEN " ID:" \o ToString(co.u - 1) \o RelText(RelSorted(co.rel), 1) ELSE "")
                \o (IF Opt.trace = 1 THEN Join([j \in DOMAIN r.hit |-> " " \o RuleText(r.hit[j])] \o <<>>) ELSE "")
       IN IF r.np \/ (del /\ Opt.trace = 0) THEN <<>>
          ELSE <<s>> \o ReadingLines(W, w, i, co, ch, k+1, del, removed)

\* merging of readings that differ only in their mapping tags
ChKey(ch) == [k \in DOMAIN ch |-> PlainKey(ch[k])] \o <<>>
ChHits(ch) == IF Opt.trace = 1 THEN [k \in DOMAIN ch |-> ch[k].hit] \o <<>> ELSE <<>>
ChMaps(ch) == Len(SelectSeq(ch, LAMBDA r : MapTag(r) # ""))
RECURSIVE MarkDead(_, _, _, _)
\* seen: Seq(<<plain key, number of mappings, index>>)
MarkDead(cs, i, seen, dead) ==
  IF i > Len(cs) THEN dead
  ELSE LET key == ChKey(cs[i])
           nm == ChMaps(cs[i])
           S1 == { j \in DOMAIN seen : seen[j][1] = key }
           e == seen[CHOOSE j \in S1 : TRUE]
           d2 == IF S1 = {} THEN dead
                 ELSE IF e[2] # 0 /\ nm = 0 THEN dead \cup {i}
                 ELSE IF e[2] = 0 /\ nm # 0 THEN dead \cup {e[3]} ELSE dead
           s2 == SelectSeq(seen, LAMBDA x : x[1] # key) \o << <<key, nm, i>> >>
       IN MarkDead(cs, i+1, s2, d2)
RECURSIVE GroupChains(_, _, _)
GroupChains(cs, i, acc) ==       \* acc: Seq of [k, xs]
  IF i > Len(cs) THEN acc
  ELSE LET key == <<ChKey(cs[i]), ChHits(cs[i]), ChMaps(cs[i])>>
           J == { j \in DOMAIN acc : acc[j].k = key } IN
       IF J = {} THEN GroupChains(cs, i+1, Append(acc, [k |-> key, xs |-> <<cs[i]>>]))
       ELSE GroupChains(cs, i+1, [acc EXCEPT ![CHOOSE j \in J : TRUE].xs = Append(@, cs[i])])
RECURSIVE MapsOfAll(_, _)
MapsOfAll(xs, i) == IF i > Len(xs) THEN <<>> ELSE (IF MapTag(xs[i][1]) = "" THEN <<>> ELSE <<MapTag(xs[i][1])>>) \o MapsOfAll(xs, i+1)
MergeChains(cs) ==
  LET dead == MarkDead(cs, 1, <<>>, {})
      cs1 == [i \in DOMAIN cs |-> IF i \in dead THEN [cs[i] EXCEPT ![1].del = TRUE] ELSE cs[i]] \o <<>>
      gs == GroupChains(cs1, 1, <<>>)
      merged(g) == LET f == g.xs[1]
                       m0 == MapTag(f[1])
                       r == IF m0 = "" THEN f[1] ELSE DelTag(f[1], m0)
                       ms == SelectSeq(Uniq(MapsOfAll(g.xs, 1)), LAMBDA t : ~Has(r.t, t))
                   IN [f EXCEPT ![1] = [r EXCEPT !.t = @ \o ms]]
  IN IF Len(gs) = Len(cs1) THEN cs1 ELSE [j \in DOMAIN gs |-> merged(gs[j])] \o <<>>
Merge(cs) == IF Opt.splitm = 1 THEN cs ELSE MergeChains(cs)

L(s) == <<"L", s>>
\* the chains of one list in print order; chains with equal numbers form a bag
RECURSIVE ByNum(_, _, _)
ByNum(cs, ks, ln) ==           \* ln[j]: the lines of chain j
  IF ks = <<>> THEN <<>>
  ELSE LET g == SelectSeq([j \in DOMAIN cs |-> j] \o <<>>, LAMBDA j : cs[j][1].num = ks[1])
           e == IF Len(g) = 1 THEN [j \in DOMAIN ln[g[1]] |-> L(ln[g[1]][j])] \o <<>>
                ELSE << <<"B", SelectSeq([j \in DOMAIN g |-> ln[g[j]]] \o <<>>, LAMBDA b : b # <<>>)>> >>
       IN e \o ByNum(cs, Tail(ks), ln)
ListOut(W, w, i, co, cs, removed) ==
  LET ks == SetToSortedSeq({ cs[j][1].num : j \in DOMAIN cs })
      ln == [j \in DOMAIN cs |-> ReadingLines(W, w, i, co, cs[j], 1, cs[j][1].del, removed)] \o <<>>
  IN ByNum(cs, ks, ln)

\* text is kept as a sequence of lines, blank lines included
TextOut(ls) == [i \in DOMAIN ls |-> L(ls[i])] \o <<>>

CohortOut(W, w, i, co, removed) ==
  LET shown == i # 1 /\ (~removed \/ (Opt.trace = 1 /\ Opt.tnr = 0))
      live == co.rs \o co.ign
      tr == Opt.trace = 1 /\ Opt.tnr = 0
      m(cs) == IF Opt.trace = 1 THEN Merge(cs) ELSE cs
  IN (IF ~shown THEN <<>>
      ELSE <<L((IF removed THEN "; " ELSE "") \o co.w \o WithSpace(SelectSeq(co.wt, LAMBDA t : t # co.w)))>>
           \o ListOut(W, w, i, co, Merge([j \in DOMAIN co.rs |-> co.rs[j]] \o [j \in DOMAIN co.ign |-> [co.ign[j] EXCEPT ![1].del = FALSE]]), removed)
           \o (IF tr THEN ListOut(W, w, i, co, m(co.dly), removed) \o ListOut(W, w, i, co, m(co.del), removed) ELSE <<>>))
     \o TextOut(co.text)

SetVarLine(n, v) == "<STREAMCMD:SETVAR:" \o n \o (IF v = "*" THEN ">" ELSE "=" \o v \o ">")
RemVarLine(n) == "<STREAMCMD:REMVAR:" \o n \o ">"
VarCmds(vout, vset) ==
  IF vout = <<>> THEN <<>>
  ELSE << <<"B", [i \in DOMAIN vout |-> <<IF AssocHas(vset, vout[i]) THEN SetVarLine(vout[i], AssocGet(vset, vout[i])) ELSE RemVarLine(vout[i])>>] \o <<>> >> >>
RECURSIVE AllOut(_, _, _)
AllOut(W, w, j) ==
  LET win == W.ws[w] IN
  IF j > Len(win.all) THEN <<>>
  ELSE LET u == win.all[j]
           V == { i \in DOMAIN win.cs : win.cs[i].u = u }
           H == { i \in DOMAIN win.hid : win.hid[i].co.u = u }
       IN (IF V # {} THEN LET i == CHOOSE x \in V : TRUE IN CohortOut(W, w, i, win.cs[i], FALSE)
           ELSE IF H # {} THEN LET h == win.hid[CHOOSE x \in H : TRUE] IN CohortOut(W, w, h.ln, h.co, h.st = "rem")
           ELSE <<>>) \o AllOut(W, w, j+1)
WindowOut(W, w) ==
  LET win == W.ws[w] IN
  VarCmds(win.vout, win.vset) \o TextOut(win.text) \o AllOut(W, w, 1) \o TextOut(win.tpost)
  \o (IF win.flush THEN <<L("<STREAMCMD:FLUSH>")>> ELSE <<>>)

(*************************** comparison with the observation ***************)
Obs == Case.out
LineAt(i) == IF i <= Len(Obs) THEN Obs[i] ELSE "<end of output>"
BlockAt(b, i) == i + Len(b) - 1 <= Len(Obs) /\ \A j \in DOMAIN b : Obs[i+j-1] = b[j]
RECURSIVE Compare(_, _, _)
RECURSIVE Bag1(_, _)
Bag1(bs, i) ==        \* <<ok, next index>>
  IF bs = <<>> THEN <<TRUE, i>>
  ELSE LET M == { j \in DOMAIN bs : BlockAt(bs[j], i) } IN
       IF M = {} THEN <<FALSE, i>> ELSE LET j == CHOOSE x \in M : \A y \in M : Len(bs[x]) >= Len(bs[y]) IN Bag1(RemoveAt(bs, j), i + Len(bs[j]))
\* el: output elements; result [oi, bad]
Compare(el, i, oi) ==
  IF i > Len(el) THEN [oi |-> oi, bad |-> <<>>]
  ELSE IF el[i][1] = "L"
  THEN IF LineAt(oi) = el[i][2] /\ oi <= Len(Obs) THEN Compare(el, i+1, oi+1)
       ELSE [oi |-> oi, bad |-> <<"line", ToString(oi), "expected", el[i][2], "observed", LineAt(oi)>>]
  ELSE LET b == Bag1(el[i][2], oi) IN
       IF b[1] THEN Compare(el, i+1, b[2])
       ELSE [oi |-> oi, bad |-> <<"line", ToString(b[2]), "expected one of", ToString(el[i][2]), "observed", LineAt(b[2])>>]
Emit(s, el) ==
  IF s.bad # <<>> \/ el = <<>> THEN s
  ELSE LET x == Compare(el, 1, s.oi) IN [s EXCEPT !.oi = x.oi, !.bad = x.bad]

(******************************* stream reader *****************************)
S0 ==
  [pc |-> "read", ix |-> 1,
   W |-> [ws |-> <<>>, cur |-> 0, vars |-> <<>>, par |-> NoPar,
          nu |-> 1, nw |-> 1, hasdep |-> Case.opt.pdep = 1, hasrel |-> FALSE, spanned |-> FALSE],
   pend |-> <<>>, open |-> FALSE, lookback |-> FALSE, vset |-> <<>>, vrem |-> <<>>, vout |-> <<>>, ign |-> FALSE, anyw |-> FALSE,
   post |-> FALSE,
   tried |-> {}, pass |-> 0, stage |-> <<>>, spass |-> 0, cnt |-> 0, rl |-> <<>>, rp |-> 0, reps |-> 0, jumps |-> 0, did |-> FALSE, final |-> FALSE,
   ret |-> "", oi |-> 1, bad |-> <<>>, hits |-> 0]

\* a reading line: [t: tags starting with the baseform, m: mapping tags]
FirstBase(ts) == LET B == { i \in DOMAIN ts : IsBaseform(ts[i]) } IN IF B = {} THEN "" ELSE ts[MinS(B)]
RawChain(w, rd, num) ==
  [k \in DOMAIN rd |->
     LET ms == IF k = 1 THEN <<>> ELSE (IF rd[k].m = <<>> THEN <<>> ELSE <<rd[k].m[1]>>) IN
     [NewReading(num) EXCEPT !.t = <<w>> \o rd[k].t \o ms, !.bf = FirstBase(rd[k].t), !.map = (ms # <<>>)]] \o <<>>
ItemCohort(it, u) ==
  LET c0 == NewCohort(u, it.w)
      rs == [i \in DOMAIN it.rs |-> RawChain(it.w, it.rs[i], i * 1000)] \o <<>>
      dl == [i \in DOMAIN it.dl |-> LET c == RawChain(it.w, it.dl[i], i * 1000) IN [c EXCEPT ![1].del = TRUE]] \o <<>>
  IN [c0 EXCEPT !.wt = IF it.wt = <<>> THEN <<>> ELSE <<it.w>> \o it.wt, !.rs = rs, !.del = dl,
                !.raw = [i \in DOMAIN it.rs |-> it.rs[i][1].m] \o <<>>, !.draw = [i \in DOMAIN it.dl |-> it.dl[i][1].m] \o <<>>,
                !.ids = it.ds, !.idp = it.dp, !.hasd = it.ds # 0, !.rid = it.rid, !.rrel = it.rrel, !.related = (it.rid # 0 \/ it.rrel # <<>>), !.pl = it.pl, !.pr = it.pr]
\* split the mapping tags of the input readings
RECURSIVE SplitRaw(_, _, _)
SplitRaw(cs, raw, i) ==
  IF i > Len(raw) THEN cs
  ELSE IF raw[i] = <<>> THEN SplitRaw(cs, raw, i+1)
  ELSE LET s == SplitMap(raw[i], cs[i][1], Tail(cs[i]), cs, TRUE) IN
       SplitRaw([cs EXCEPT ![i][1] = s.r] \o s.new, raw, i+1)
SortNum(cs) == SortBy(LAMBDA c : c[1].num, cs)
SplitPend(co) == [co EXCEPT !.rs = IF co.raw = <<>> THEN @ ELSE SortNum(SplitRaw(@, co.raw, 1)),
                            !.del = IF co.draw = <<>> THEN @ ELSE SortNum(SplitRaw(@, co.draw, 1)),
                            !.raw = <<>>, !.draw = <<>>]
WithMagic(co) == IF co.rs = <<>> THEN [co EXCEPT !.rs = << <<MagicReading(co)>> >>, !.raw = << <<>> >>] ELSE co
WithEnd(co) == [co EXCEPT !.rs = [i \in DOMAIN co.rs |-> [co.rs[i] EXCEPT ![1] = AddTag(@, EndTag)]] \o <<>>]
PushCohort(W, w, co) ==
  LET tags == BagRs(co.rs, 1) IN
  [W EXCEPT !.ws[w].cs = Append(@, co), !.ws[w].all = Append(@, co.u), !.ws[w].bag = Uniq(@ \o tags)]
PushWindow(s) ==
  LET W == s.W IN
  [s EXCEPT !.W = [W EXCEPT !.ws = Append(@, NewWindow(W.nu, W.nw)), !.nu = @ + 1, !.nw = @ + 1], !.open = TRUE, !.anyw = TRUE]
SetMatches(W, co, sid) ==
  LET W1 == IF W.ws = <<>> THEN W ELSE W IN
  sid # 0 /\ LET E == [NoEnv EXCEPT !.W = W1] IN
             \E i \in DOMAIN co.rs : BMSet(co.rs[i][1], co, sid, E)
ClosePend(s) == [s EXCEPT !.W = PushCohort(@, Len(@.ws), SplitPend(WithEnd(s.pend[1]))), !.pend = <<>>, !.open = FALSE, !.lookback = FALSE]
NumNext(W) == Len(W.ws) - W.cur
NumPrev(W) == IF W.cur = 0 THEN 0 ELSE W.cur - 1

\* adopt the variables gathered by the reader
Adopt(s) == [s EXCEPT !.W.ws[Len(s.W.ws)] = [@ EXCEPT !.vset = s.vset, !.vrem = s.vrem, !.vout = s.vout],
                      !.vset = <<>>, !.vrem = <<>>, !.vout = <<>>]

\* steps of a cohort line up to the point where a window may have to be run
OnCohort1(s0) ==
  LET s1 == IF s0.pend = <<>> THEN s0 ELSE [s0 EXCEPT !.pend[1] = WithMagic(@)]
      n(s) == IF s.open THEN Len(Cs(s.W, Len(s.W.ws))) ELSE 0
      s2 == IF ~(s1.open /\ n(s1) >= Opt.soft /\ Opt.softset # 0 /\ ~s1.lookback) THEN s1
            ELSE LET w == Len(s1.W.ws)
                     cs == Cs(s1.W, w)
                     M == { i \in DOMAIN cs : SetMatches(s1.W, cs[i], Opt.softset) }
                 IN IF M = {} THEN [s1 EXCEPT !.lookback = TRUE]
                    ELSE [s1 EXCEPT !.W = DelimitAt(@, <<w, MaxS(M)>>)]
      s3 == IF s2.pend # <<>> /\ s2.open /\ n(s2) >= Opt.soft /\ SetMatches(s2.W, s2.pend[1], Opt.softset) THEN ClosePend(s2) ELSE s2
      s4 == IF s3.pend # <<>> /\ s3.open /\ (n(s3) >= Opt.hard \/ SetMatches(s3.W, s3.pend[1], Opt.delimset)) THEN ClosePend(s3) ELSE s3
      s5 == IF ~s4.open THEN [PushWindow(s4) EXCEPT !.pend = <<>>, !.lookback = FALSE] ELSE s4
      s6 == IF s5.pend # <<>> THEN [s5 EXCEPT !.W = PushCohort(@, Len(@.ws), SplitPend(s5.pend[1])), !.pend = <<>>] ELSE s5
  IN s6
OnCohort2(s, it) ==
  LET s1 == IF Len(s.W.ws[Len(s.W.ws)].all) = 1 THEN Adopt(s) ELSE s IN
  [s1 EXCEPT !.pend = <<ItemCohort(it, s1.W.nu)>>, !.W.nu = @ + 1, !.ix = @ + 1, !.pc = "read", !.post = TRUE,
             \* dependencies and relations of the input count when the grammar has a use for them
             !.W.hasdep = @ \/ (Case.opt.hasdep = 1 /\ it.ds # 0),
             !.W.hasrel = @ \/ (Case.opt.hasrel = 1 /\ (it.rid # 0 \/ it.rrel # <<>>))]

\* make the next window current; the old one remembers the variables
Shuffle(W) == IF W.cur = 0 THEN [W EXCEPT !.cur = 1]
              ELSE [W EXCEPT !.ws[W.cur] = [@ EXCEPT !.vset = W.vars, !.vrem = <<>>], !.cur = @ + 1]
\* with the current window beyond the last: there is none
StartWindow(s, ret) ==
  LET W1 == Shuffle(s.W)
      win == W1.ws[W1.cur]
      RECURSIVE PutAll(_, _)
      PutAll(vs, i) == IF i > Len(win.vset) THEN vs ELSE PutAll(AssocPut(vs, win.vset[i][1], win.vset[i][2]), i+1)
      v2 == SelectSeq(PutAll(W1.vars, 1), LAMBDA e : ~Has(win.vrem, e[1]))
      W2 == [W1 EXCEPT !.vars = v2, !.par = [l |-> 0, r |-> 0, lt |-> "", rt |-> "", lp |-> 0, rp |-> 0]]
      W3 == IF W2.hasdep THEN ReflowDeps(W2, s.ret = "eof" \/ ret = "eof") ELSE W2
      W4 == IF W3.hasrel THEN ReflowRels(W3) ELSE W3
      W5 == IF Case.parens = <<>> THEN W4 ELSE Wrap(W4)
  IN [s EXCEPT !.W = W5, !.pc = "pass", !.ret = ret, !.pass = 0, !.final = FALSE]

PrintFirst(s) == LET s1 == Emit(s, WindowOut(s.W, 1)) IN [s1 EXCEPT !.W.ws = Tail(@), !.W.cur = @ - 1]
RECURSIVE PrintDown(_, _)
PrintDown(s, n) == IF NumPrev(s.W) > n THEN PrintDown(PrintFirst(s), n) ELSE s
\* after the last window: everything is "previous"
RECURSIVE PrintAll(_)
PrintAll(s) == IF s.W.ws = <<>> THEN [s EXCEPT !.W.cur = 0] ELSE PrintAll([PrintFirst(s) EXCEPT !.W.cur = 1])

EndPend(s) ==
  IF s.pend = <<>> \/ ~s.open THEN s
  ELSE [s EXCEPT !.W = PushCohort(@, Len(@.ws), WithEnd(WithMagic(SplitPend(s.pend[1])))), !.pend = <<>>, !.open = FALSE, !.post = FALSE]

LastShuffle(W) == IF W.cur = 0 THEN W ELSE [W EXCEPT !.ws[W.cur] = [@ EXCEPT !.vset = W.vars, !.vrem = <<>>]]
TextTo(s, line) ==
  IF s.pend # <<>> THEN [s EXCEPT !.pend[1].text = Append(@, line)]
  ELSE Emit(s, <<L(line)>>)

RECURSIVE SetVars(_, _, _)
SetVars(s, vs, i) ==       \* vs: Seq(<<name, value>>)
  IF i > Len(vs) THEN s
  ELSE SetVars([s EXCEPT !.vset = AssocPut(@, vs[i][1], vs[i][2]), !.vrem = SelectSeq(@, LAMBDA x : x # vs[i][1]),
                         !.vout = IF Has(@, vs[i][1]) THEN @ ELSE Append(@, vs[i][1])], vs, i+1)
RECURSIVE RemVarsCmd(_, _, _)
RemVarsCmd(s, ns, i) ==
  IF i > Len(ns) THEN s
  ELSE RemVarsCmd([s EXCEPT !.vset = AssocDel(@, ns[i]), !.vrem = IF Has(@, ns[i]) THEN @ ELSE Append(@, ns[i]),
                            !.vout = IF Has(@, ns[i]) THEN @ ELSE Append(@, ns[i])], ns, i+1)

TextLines(s, it) ==
  LET RECURSIVE Go(_, _)
      Go(x, i) == IF i > Len(it.lines) THEN x ELSE Go(TextTo(x, it.lines[i]), i+1)
  IN Go(s, 1)
ReadStep(s) ==
  IF s.ix > Len(Case.items) THEN [EndPend(s) EXCEPT !.pc = "drain", !.ret = "eof"]
  ELSE
  LET it == Case.items[s.ix] IN
  IF s.ign /\ it.k # "cmd" THEN [TextLines(s, it) EXCEPT !.ix = @ + 1]
  ELSE
  CASE it.k = "coh" ->
         LET s1 == OnCohort1(s) IN
         IF NumNext(s1.W) > Opt.nwin + 1 THEN StartWindow(s1, "coh") ELSE OnCohort2(s1, it)
    [] it.k = "text" -> [TextTo(s, it.s) EXCEPT !.ix = @ + 1]
    [] it.k = "cmd" ->
         CASE it.c = "FLUSH" ->
                LET back == s.W.ws # <<>>
                    s1 == IF back THEN [s EXCEPT !.W.ws[Len(s.W.ws)].flush = TRUE] ELSE s
                IN [EndPend(s1) EXCEPT !.pc = "drain", !.ret = IF back THEN "flush" ELSE "flush0"]
           [] it.c = "IGNORE" -> [Emit(s, <<L("<STREAMCMD:IGNORE>")>>) EXCEPT !.ign = TRUE, !.ix = @ + 1]
           [] it.c = "RESUME" -> [Emit(s, <<L("<STREAMCMD:RESUME>")>>) EXCEPT !.ign = FALSE, !.ix = @ + 1]
           [] it.c = "EXIT" -> [Emit(s, <<L("<STREAMCMD:EXIT>")>>) EXCEPT !.pc = "check"]
           [] it.c = "SETVAR" ->
                LET s1 == SetVars(s, it.vs, 1) IN
                [s1 EXCEPT !.ix = @ + 1,
                           !.W.vars = IF ~s.open /\ Len(it.vs) = 1 /\ it.plain = 1 THEN AssocPut(@, it.vs[1][1], "*") ELSE @]
           [] it.c = "REMVAR" -> [RemVarsCmd(s, it.ns, 1) EXCEPT !.ix = @ + 1]
           [] OTHER -> [TextTo(s, it.s) EXCEPT !.ix = @ + 1]

\* run the remaining windows, then print everything
DrainStep(s) ==
  IF NumNext(s.W) > 0 THEN StartWindow(s, s.ret)
  ELSE LET s1 == PrintAll([s EXCEPT !.W = LastShuffle(@)]) IN
       IF s.ret = "eof"
       THEN [Emit(s1, VarCmds(s1.vout, s1.vset)) EXCEPT !.pc = "check"]
       ELSE LET s2 == IF s.ret = "flush0" THEN Emit(s1, <<L("<STREAMCMD:FLUSH>")>>) ELSE s1 IN
            [s2 EXCEPT !.W.vars = <<>>, !.ix = @ + 1, !.pc = "read"]

(******************************* running a window **************************)
RulesOf(sec) == LET P(i) == Rule(i).section = sec IN SelectSeq([i \in DOMAIN Case.rules |-> i] \o <<>>, P)
Cumul(k) == LET P(i) == Rule(i).section >= 0 /\ Rule(i).section <= k IN SelectSeq([i \in DOMAIN Case.rules |-> i] \o <<>>, P)
Among(secs) == LET P(i) == Has(secs, Rule(i).section) IN SelectSeq([i \in DOMAIN Case.rules |-> i] \o <<>>, P)
\* the runs: <<key, rules>>
Plan ==
  (IF Opt.nobef = 1 \/ RulesOf(-1) = <<>> THEN <<>> ELSE <<[once |-> TRUE, rl |-> RulesOf(-1)]>>)
  \o (IF Opt.nosec = 1 THEN <<>>
      ELSE IF Opt.secs # <<>> THEN [k \in DOMAIN Opt.secs |-> [once |-> FALSE, rl |-> Among(SubSeq(Opt.secs, 1, k))]] \o <<>>
      ELSE [k \in 1..Opt.nsec |-> [once |-> FALSE, rl |-> Cumul(k-1)]] \o <<>>)
  \o (IF Opt.noaft = 1 \/ RulesOf(-2) = <<>> THEN <<>> ELSE <<[once |-> TRUE, rl |-> RulesOf(-2)]>>)

EnclMark(W, n) == [W EXCEPT !.ws[W.cur].cs = [i \in DOMAIN @ |-> [@[i] EXCEPT !.rs =
                     [j \in DOMAIN @ |-> [@[j] EXCEPT ![1] = Hit(@, 0 - n)]] \o <<>>]] \o <<>>]

\* behaviours with very many passes are left undecided
TooLong(s) == [s EXCEPT !.bad = <<"skip">>, !.pc = "done"]
PassStep(s) ==
  LET s1 == PrintDown(s, Opt.nwin)
      s2 == [s1 EXCEPT !.tried = {}, !.pass = @ + 1]
      s3 == IF Opt.tencl = 1 THEN [s2 EXCEPT !.W = EnclMark(@, s2.pass)] ELSE s2
      W4 == IF s3.W.ws[s3.W.cur].hasenc THEN EnclNext(s3.W) ELSE s3.W
  IN IF s2.pass > Opt.cap + 20 \/ s2.W.nu > 3 * Len(Case.items) + 150 THEN TooLong(s2) ELSE IF s2.pass > 1000 THEN [s2 EXCEPT !.pc = "wdone"]
     ELSE [s3 EXCEPT !.W = W4, !.stage = Plan, !.cnt = 0, !.spass = 0, !.pc = "stage"]

StageStep(s) ==
  IF s.stage = <<>> THEN [s EXCEPT !.pc = "encl"]
  ELSE LET st == s.stage[1] IN
       IF ~st.once /\ Opt.maxruns > 0 /\ s.cnt >= Opt.maxruns
       THEN [s EXCEPT !.stage = Tail(@), !.cnt = 0, !.spass = @ + 1]
       ELSE [s EXCEPT !.rl = st.rl, !.rp = 1, !.did = FALSE, !.cnt = @ + 1, !.pc = "rule"]
\* a run over the rules has ended
EndRun(s) ==
  LET once == s.stage[1].once IN
  IF once \/ ~s.did THEN [s EXCEPT !.stage = Tail(@), !.cnt = 0, !.spass = 0, !.pc = "stage"]
  ELSE IF s.spass >= Opt.cap \/ s.W.nu > 2 * Len(Case.items) + 40 THEN TooLong(s)
  ELSE [s EXCEPT !.spass = @ + 1, !.pc = "stage",
                 !.stage = IF s.spass >= 1000 THEN SelectSeq(@, LAMBDA x : x.once) ELSE @]

SkipRule(s, ri) ==
  LET r == Rule(ri)
      enc == s.W.ws[s.W.cur].hasenc IN
  \/ (Opt.rules # <<>> /\ ~Has(Opt.rules, ri))
  \/ r.type \in {"IGNORE", "ANCHOR"}
  \/ (Opt.nomap = 1 /\ r.type \in NeverMapped)
  \/ (Opt.nocorr = 1 /\ r.type \in {"SUBSTITUTE", "APPEND"})
  \/ (enc /\ FlagOf(r, "ENCL_FINAL") # s.final)

RuleStep(s) ==
  IF s.rp > Len(s.rl) THEN EndRun(s)
  ELSE
  LET ri == s.rl[s.rp]
      r == Rule(ri) IN
  IF SkipRule(s, ri) THEN [s EXCEPT !.rp = @ + 1]
  ELSE LET G == RunRule(ri, s.W, s.tried)
           s1 == [s EXCEPT !.W = G.W, !.tried = G.tried, !.did = @ \/ (G.ch /\ ~NoIterate(r) /\ Opt.maxruns # 1),
                           !.hits = IF G.ch THEN @ + 1 ELSE @]
       IN IF G.jump # 0
          THEN LET J == { i \in DOMAIN s.rl : s.rl[i] >= G.jump } IN
               IF s.jumps >= 50 * Opt.cap THEN TooLong(s) ELSE [s1 EXCEPT !.jumps = @ + 1, !.rp = IF J = {} THEN Len(s.rl) + 1 ELSE MinS(J)]
          ELSE IF G.delim THEN [s1 EXCEPT !.pc = "pass"]
          ELSE IF G.ch /\ FlagOf(r, "REPEAT") THEN (IF s.reps >= Opt.cap THEN TooLong(s) ELSE [s1 EXCEPT !.tried = {}, !.reps = @ + 1])
          ELSE [s1 EXCEPT !.rp = @ + 1, !.reps = 0]

\* after a pass: reveal the next enclosure, then one final pass, then finish
EnclStep(s) ==
  LET win == s.W.ws[s.W.cur] IN
  IF ~win.hasenc THEN [s EXCEPT !.pc = "wdone"]
  ELSE IF \E i \in DOMAIN win.hid : win.hid[i].depth = 1 THEN [s EXCEPT !.W = Unpack(@), !.pc = "pass"]
  ELSE IF ~s.final THEN [s EXCEPT !.W.par = [l |-> 0, r |-> 0, lt |-> "", rt |-> "", lp |-> 0, rp |-> 0], !.final = TRUE, !.pc = "pass"]
  ELSE [s EXCEPT !.pc = "wdone"]

WDoneStep(s) ==
  LET s1 == [s EXCEPT !.W = Unignore(@)] IN
  CASE s.ret = "coh" -> OnCohort2([s1 EXCEPT !.ret = ""], Case.items[s.ix])
    [] OTHER -> [s1 EXCEPT !.pc = "drain"]

CheckStep(s) ==
  LET b == IF s.bad # <<>> THEN s.bad
           ELSE IF s.oi <= Len(Obs) THEN <<"line", ToString(s.oi), "expected", "<end of output>", "observed", LineAt(s.oi)>> ELSE <<>>
  IN [s EXCEPT !.bad = b, !.pc = "done"]

Step(s) ==
  CASE s.pc = "read"  -> ReadStep(s)
    [] s.pc = "pass"  -> PassStep(s)
    [] s.pc = "stage" -> StageStep(s)
    [] s.pc = "rule"  -> RuleStep(s)
    [] s.pc = "encl"  -> EnclStep(s)
    [] s.pc = "wdone" -> WDoneStep(s)
    [] s.pc = "drain" -> DrainStep(s)
    [] s.pc = "check" -> CheckStep(s)
=============================================================================
