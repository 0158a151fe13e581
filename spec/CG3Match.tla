------------------------------ MODULE CG3Match ------------------------------
(***************************************************************************)
(* Tags, regular expressions, numeric tags, LISTs and SETs, unification.  *)
(*                                                                         *)
(* A tag pattern is a record with kind k:                                  *)
(*   lit  literal tag s            any  the star tag                       *)
(*   ic   case-insensitive s       rx   regular expression re              *)
(*   rxl  regular expression over the whole reading                        *)
(*   num  numeric [key, op, v]     anyb/anyw/anyt  ".*"r "<.*>"r <.*>r     *)
(*   var  VAR:  [n, v]             tgt/mark/att/same/ctx/encl/parl/parr    *)
(*   set  SET:name (si)            meta regular expression over the text   *)
(*   vs   varstring (parts)                                                *)
(* E is the environment of one rule application on one reading.           *)
(***************************************************************************)
EXTENDS CG3Base

(************************** characters and case ****************************)
LowerMap == "ABCDEFGHIJKLMNOPQRSTUVWXYZÆØÅÄÖÜÉÑ"
LowerTo  == "abcdefghijklmnopqrstuvwxyzæøåäöüéñ"
LowerC(c) == LET S == { i \in 1..Len(LowerMap) : Ch(LowerMap, i) = c } IN
             IF S = {} THEN c ELSE Ch(LowerTo, CHOOSE i \in S : TRUE)
UpperC(c) == LET S == { i \in 1..Len(LowerMap) : Ch(LowerTo, i) = c } IN
             IF S = {} THEN c ELSE Ch(LowerMap, CHOOSE i \in S : TRUE)
LowerS(s) == Join([i \in 1..Len(s) |-> LowerC(Ch(s, i))] \o <<>>)
UpperS(s) == Join([i \in 1..Len(s) |-> UpperC(Ch(s, i))] \o <<>>)
ICaseEq(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : LowerC(Ch(a, i)) = LowerC(Ch(b, i))

(************************** regular expressions ****************************)
\* nodes by field n: c literal (c); . any; [ class (cs, neg); s sequence (xs);
\* | alternation (xs); * repetition (x, lo, hi; hi=-1 unbounded); ( group (x, g); ^ and $.
\* RxM gives, in priority order, the possible ends with the groups captured.
RECURSIVE RxM(_, _, _, _, _), RxSeq(_, _, _, _, _, _), RxAll(_, _, _, _, _, _), RxRep(_, _, _, _, _, _, _)
CharEq(a, b, ic) == a = b \/ (ic /\ LowerC(a) = LowerC(b))
RxM(x, s, i, caps, ic) ==
  CASE x.n = "c" -> IF i <= Len(s) /\ CharEq(Ch(s, i), x.c, ic) THEN << <<i+1, caps>> >> ELSE <<>>
    [] x.n = "." -> IF i <= Len(s) THEN << <<i+1, caps>> >> ELSE <<>>
    [] x.n = "[" -> IF i <= Len(s) /\ ((\E j \in DOMAIN x.cs : CharEq(Ch(s, i), x.cs[j], ic)) # (x.neg = 1))
                    THEN << <<i+1, caps>> >> ELSE <<>>
    [] x.n = "^" -> IF i = 1 THEN << <<i, caps>> >> ELSE <<>>
    [] x.n = "$" -> IF i = Len(s)+1 THEN << <<i, caps>> >> ELSE <<>>
    [] x.n = "s" -> RxSeq(x.xs, 1, s, i, caps, ic)
    [] x.n = "|" -> Cat([j \in DOMAIN x.xs |-> RxM(x.xs[j], s, i, caps, ic)])
    [] x.n = "(" -> LET rs == RxM(x.x, s, i, caps, ic) IN
                    [j \in DOMAIN rs |-> <<rs[j][1], [rs[j][2] EXCEPT ![x.g] = SubSeq(s, i, rs[j][1]-1)]>>] \o <<>>
    [] x.n = "*" -> RxRep(x, 0, s, i, caps, ic, FALSE)
\* all ways to match xs[k..] from every (end,caps) in rs, in order
RxAll(xs, k, rs, j, s, ic) ==
  IF j > Len(rs) THEN <<>>
  ELSE RxSeq(xs, k, s, rs[j][1], rs[j][2], ic) \o RxAll(xs, k, rs, j+1, s, ic)
RxSeq(xs, k, s, i, caps, ic) ==
  IF k > Len(xs) THEN << <<i, caps>> >>
  ELSE RxAll(xs, k+1, RxM(xs[k], s, i, caps, ic), 1, s, ic)
RxRep(x, cnt, s, i, caps, ic, stop) ==
  LET more == IF stop \/ (x.hi >= 0 /\ cnt >= x.hi) THEN <<>>
              ELSE LET rs == RxM(x.x, s, i, caps, ic) IN
                   Cat([j \in DOMAIN rs |-> IF rs[j][1] = i THEN <<>>
                                            ELSE RxRep(x, cnt+1, s, rs[j][1], rs[j][2], ic, FALSE)])
      here == IF cnt >= x.lo THEN << <<i, caps>> >> ELSE <<>>
  IN  more \o here
RECURSIVE RxFindFrom(_, _, _)
RxFindFrom(p, s, i) ==
  IF i > Len(s) + 1 THEN <<>>
  ELSE LET rs == RxM(p.re, s, i, [j \in 1..p.gc |-> ""], p.ic = 1) IN
       IF Len(rs) > 0 THEN rs[1] ELSE RxFindFrom(p, s, i+1)
\* result: <<>> (no match) or <<end, captures>>
RxFind(p, s) == RxFindFrom(p, s, 1)

\* does it match anywhere: the ends reachable from a set of starts, captures ignored
RECURSIVE RxE(_, _, _, _), RxSeqE(_, _, _, _, _), RxStarE(_, _, _, _, _)
RxE(x, s, I, ic) ==
  CASE x.n = "c" -> { i+1 : i \in { j \in I : j <= Len(s) /\ CharEq(Ch(s, j), x.c, ic) } }
    [] x.n = "." -> { i+1 : i \in { j \in I : j <= Len(s) } }
    [] x.n = "[" -> { i+1 : i \in { j \in I : j <= Len(s) /\ ((\E q \in DOMAIN x.cs : CharEq(Ch(s, j), x.cs[q], ic)) # (x.neg = 1)) } }
    [] x.n = "^" -> I \cap {1}
    [] x.n = "$" -> I \cap {Len(s)+1}
    [] x.n = "s" -> RxSeqE(x.xs, 1, s, I, ic)
    [] x.n = "|" -> UNION { RxE(x.xs[j], s, I, ic) : j \in DOMAIN x.xs }
    [] x.n = "(" -> RxE(x.x, s, I, ic)
    [] x.n = "*" -> LET one == RxE(x.x, s, I, ic) IN
                    (IF x.lo = 0 THEN I ELSE {}) \cup
                    (IF x.hi = 1 THEN one ELSE RxStarE(x.x, s, one, one, ic))
RxSeqE(xs, k, s, I, ic) == IF k > Len(xs) \/ I = {} THEN I ELSE RxSeqE(xs, k+1, s, RxE(xs[k], s, I, ic), ic)
RxStarE(x, s, seen, new, ic) ==
  IF new = {} THEN seen
  ELSE LET e == RxE(x, s, new, ic) \ seen IN RxStarE(x, s, seen \cup e, e, ic)
RxHas(p, s) == RxE(p.re, s, 1..(Len(s)+1), p.ic = 1) # {}

(************************** numeric tags ***********************************)
(* A numeric input tag is looked up in Case.num: tag |-> [key, op, v].     *)
(* The answer is given by the intersection semantics of the manual.        *)
IsNum(t) == "num" \in DOMAIN Case /\ t \in DOMAIN Case.num
NumOf(t) == Case.num[t]
CmpOK(go, g, io, i) ==
  CASE go = "=" ->
         (CASE io = "=" -> g = i [] io = "!=" -> g # i [] io = "<" -> g < i [] io = "<=" -> g <= i
            [] io = ">" -> g > i [] io = ">=" -> g >= i)
    [] go = "!=" -> (CASE io = "=" -> g # i [] io = "!=" -> g = i [] OTHER -> TRUE)
    [] go = "<"  -> (CASE io = "=" -> g > i [] io \in {">", ">="} -> g > i [] OTHER -> TRUE)
    [] go = "<=" -> (CASE io = "=" -> g >= i [] io = ">" -> g > i [] io = ">=" -> g >= i [] OTHER -> TRUE)
    [] go = ">"  -> (CASE io = "=" -> g < i [] io \in {"<", "<="} -> g < i [] OTHER -> TRUE)
    [] go = ">=" -> (CASE io = "=" -> g <= i [] io = "<" -> g < i [] io = "<=" -> g <= i [] OTHER -> TRUE)
\* all values of key in the cohort's readings, sub-readings excluded
NumLow  == 0 - 2000000000
NumHigh == 2000000000
CohortVals(co, key) ==
  LET ls == co.rs IN
  UNION { { NumOf(ls[i][1].t[j]).v : j \in { q \in DOMAIN ls[i][1].t :
            IsNum(ls[i][1].t[q]) /\ NumOf(ls[i][1].t[q]).key = key } } : i \in DOMAIN ls }
NumVal(p, co) ==
  IF p.v \in {"MIN", "MAX"}        \* with an offset: <key=MAX-2>
  THEN LET V == CohortVals(co, p.key) IN
       p.n + (IF p.v = "MIN" THEN (IF V = {} THEN NumLow ELSE MinS(V)) ELSE (IF V = {} THEN NumHigh ELSE MaxS(V)))
  ELSE p.n
NumMatch(p, t, co) ==
  IsNum(t) /\ NumOf(t).key = p.key /\ CmpOK(p.op, NumVal(p, co), NumOf(t).op, NumOf(t).v)

(************************** environments ***********************************)
NoEnv == [W |-> <<>>, ut |-> <<>>, us |-> <<>>, lb |-> "", lw |-> "", lt |-> "", rx |-> <<>>,
          mark |-> 0, atc |-> 0, ath |-> 0, ats |-> 0, mw |-> 0, tgt |-> 0, same |-> <<>>,
          tl |-> <<>>, tmin |-> <<>>, tmax |-> <<>>, intm |-> FALSE, deep |-> <<>>, dds |-> {},
          ctx |-> <<>>, octx |-> <<>>, ai |-> 0, capu |-> FALSE, wtgt |-> 0, sb |-> FALSE]

AssocHas(f, k) == \E i \in DOMAIN f : f[i][1] = k
AssocGet(f, k) == (f[CHOOSE i \in DOMAIN f : f[i][1] = k])[2]
AssocPut(f, k, v) == IF AssocHas(f, k) THEN [f EXCEPT ![CHOOSE i \in DOMAIN f : f[i][1] = k] = <<k, v>>]
                     ELSE Append(f, <<k, v>>)
AssocDel(f, k) == SelectSeq(f, LAMBDA e : e[1] # k)

(************************** one tag against one reading ********************)
IsMap(t) == t # "" /\ Ch(t, 1) = Case.opt.mp       \* mapping tag: starts with the mapping prefix
PlainKey(r) == { r.t[i] : i \in { j \in DOMAIN r.t : ~IsMap(r.t[j]) } }

UpperF(b) == IF b = "" THEN b ELSE UpperC(Ch(b, 1)) \o SubSeq(b, 2, Len(b))
LowerF(b) == IF b = "" THEN b ELSE LowerC(Ch(b, 1)) \o SubSeq(b, 2, Len(b))
\* the tags that the $$unified LISTs of a {set} in a varstring are bound to
UtTags(si, E) == IF AssocHas(E.ut, si) /\ AssocGet(E.ut, si)[1] = si
                 THEN LET m == AssocGet(E.ut, si)
                          M == Case.sets[m[1]].m[m[2]] IN [j \in DOMAIN M |-> M[j].s] \o <<>>
                 ELSE <<>>
RECURSIVE VsText(_, _)
\* a varstring: literal text, $n (g = n), {$$SET} (m = "S", g = the LIST) and the case markers, which work on all that
\* follows them (U, L) or on its first letter (u, l)
VsText(ps, E) ==
  IF ps = <<>> THEN ""
  ELSE LET q == ps[1]
           rest == VsText(Tail(ps), E) IN
       CASE q.m = "u" -> UpperF(rest)
         [] q.m = "U" -> UpperS(rest)
         [] q.m = "l" -> LowerF(rest)
         [] q.m = "L" -> LowerS(rest)
         [] q.m = "S" -> LET T == UtTags(q.g, E) IN Join([i \in DOMAIN T |-> IF i = 1 THEN T[i] ELSE "_" \o T[i]] \o <<>>) \o rest
         [] q.g > 0 -> (IF q.g <= Len(E.rx) THEN E.rx[q.g] ELSE "") \o rest
         [] OTHER -> q.s \o rest

Res(ok, E) == [ok |-> ok, E |-> E]

\* first (in tag order) tag of the reading that the regular expression matches
RxTag(p, r) == LET S == { i \in DOMAIN r.t : RxHas(p, r.t[i]) } IN IF S = {} THEN 0 ELSE MinS(S)

\* the text that follows a cohort
MetaText(co) == Join([i \in DOMAIN co.text |-> co.text[i] \o "\n"] \o <<>>)
LineText(r) == Join([i \in DOMAIN r.t |-> IF i = 1 THEN r.t[i] ELSE " " \o r.t[i]] \o <<>>)

AnyUnif(val, last, um) == val # "" /\ (~um \/ last = "" \/ last = val)

\* a local variable asked of a cohort of another window is looked up in what that window was given (or ended with)
VarsAt(p, co, E) ==
  LET ws == E.W.ws
      S  == IF p.loc = 1 THEN { w \in DOMAIN ws : w # E.W.cur /\ \E i \in DOMAIN ws[w].cs : ws[w].cs[i].u = co.u } ELSE {}
  IN  IF S = {} THEN E.W.vars ELSE ws[CHOOSE w \in S : TRUE].vset
VarGet(p, co, E) ==
  LET vs == VarsAt(p, co, E)
      S  == { i \in DOMAIN vs : CASE p.nk = "lit" -> vs[i][1] = p.n
                                  [] p.nk = "rx" -> RxHas(p.nre, vs[i][1])
                                  [] p.nk = "ic" -> ICaseEq(p.n, vs[i][1]) }
  IN  \E i \in S : CASE p.vk = "none" -> TRUE
                     [] p.vk = "lit" -> vs[i][2] = p.v
                     [] p.vk = "rx" -> RxHas(p.vre, vs[i][2])
                     [] p.vk = "ic" -> ICaseEq(p.v, vs[i][2])

RECURSIVE MatchSet(_, _, _, _, _), MatchTag(_, _, _, _, _), MatchAll(_, _, _, _, _, _), BMSet(_, _, _, _), BMTag(_, _, _, _)

\* boolean fast path for patterns that cannot change the environment
BMTag(p, r, co, E) ==
  CASE p.k = "lit" -> \E i \in DOMAIN r.t : r.t[i] = p.s
    [] p.k = "any" -> TRUE
    [] p.k = "ic"  -> \E i \in DOMAIN r.t : ICaseEq(p.s, r.t[i])
    [] p.k = "rx"  -> \E i \in DOMAIN r.t : RxHas(p, r.t[i])
    [] p.k = "rxl" -> RxHas(p, LineText(r))
    [] p.k = "num" -> \E i \in DOMAIN r.t : NumMatch(p, r.t[i], co)
    [] p.k = "anyb" -> r.bf # ""
    [] p.k = "anyw" -> TRUE
    [] p.k = "anyt" -> \E i \in DOMAIN r.t : IsTextual(r.t[i]) /\ ~IsBaseform(r.t[i]) /\ ~IsWordform(r.t[i])
    [] p.k = "var" -> VarGet(p, co, E)
    [] p.k = "tgt" -> co.u = E.tgt
    [] p.k = "mark" -> co.u = E.mark
    [] p.k = "att" -> co.u = E.atc
    [] p.k = "same" -> PlainKey(r) = E.same
    [] p.k = "ctx" -> p.i <= Len(E.octx) /\ E.octx[p.i] = co.u
    [] p.k = "encl" -> co.encn
    [] p.k = "parl" -> E.W.par.l = co.u /\ E.W.par.lt # "" /\ Has(r.t, E.W.par.lt)
    [] p.k = "parr" -> E.W.par.r = co.u /\ E.W.par.rt # "" /\ Has(r.t, E.W.par.rt)
    [] p.k = "set" -> BMSet(r, co, p.si, E)
    [] p.k = "meta" -> co.text # <<>> /\ RxHas(p, MetaText(co))
    [] p.k = "vs" -> LET s == VsText(p.ps, E) IN \E i \in DOMAIN r.t : r.t[i] = s

BMList(r, co, S, E) ==
  /\ \A i \in DOMAIN S.ff : ~BMTag(S.ff[i], r, co, E)
  /\ \E i \in DOMAIN S.m : \A j \in DOMAIN S.m[i] : BMTag(S.m[i][j], r, co, E)

RECURSIVE BMOps(_, _, _, _, _)
BMRun(r, co, S, i, E) ==        \* evaluates one OR-free run starting at operand i: <<match, failfast, next>>
  LET RECURSIVE Go(_, _, _)
      Go(k, m, ff) ==
        IF k >= Len(S.sets) \/ S.ops[k] = "OR" THEN <<m, ff, k + 1>>
        ELSE CASE S.ops[k] = "+" -> Go(k+1, m /\ BMSet(r, co, S.sets[k+1], E), ff)
               [] S.ops[k] = "-" -> Go(k+1, m /\ ~BMSet(r, co, S.sets[k+1], E), ff)
               [] S.ops[k] = "^" -> IF BMSet(r, co, S.sets[k+1], E) THEN Go(k+1, FALSE, TRUE) ELSE Go(k+1, m, ff)
  IN  Go(i, BMSet(r, co, S.sets[i], E), FALSE)
BMOps(r, co, S, i, E) ==
  IF i > Len(S.sets) THEN FALSE
  ELSE LET x == BMRun(r, co, S, i, E) IN
       IF x[1] THEN TRUE ELSE IF x[2] THEN FALSE ELSE BMOps(r, co, S, x[3], E)
BMSet(r, co, sid, E) ==
  LET S == Case.sets[sid] IN
  CASE S.k = "any" -> TRUE
    [] S.k = "list" -> BMList(r, co, S, E)
    [] S.k = "ops" -> BMOps(r, co, S, 1, E)

\* general path
MatchTag(p, r, co, um, E) ==
  CASE p.k = "rx" -> LET i == RxTag(p, r) IN
                     IF i = 0 THEN Res(FALSE, E)
                     ELSE Res(TRUE, [E EXCEPT !.rx = @ \o RxFind(p, r.t[i])[2]])
    [] p.k = "meta" -> LET x == IF co.text = <<>> THEN <<>> ELSE RxFind(p, MetaText(co)) IN
                       IF x = <<>> THEN Res(FALSE, E) ELSE Res(TRUE, [E EXCEPT !.rx = @ \o x[2]])
    [] p.k = "anyb" -> LET v == r.bf IN
                       IF ~AnyUnif(v, E.lb, um) THEN Res(FALSE, E)
                       ELSE Res(TRUE, IF um THEN [E EXCEPT !.lb = v] ELSE E)
    [] p.k = "anyw" -> IF ~AnyUnif(co.w, E.lw, um) THEN Res(FALSE, E)
                       ELSE Res(TRUE, IF um THEN [E EXCEPT !.lw = co.w] ELSE E)
    [] p.k = "anyt" -> LET S == { i \in DOMAIN r.t : IsTextual(r.t[i]) /\ ~IsBaseform(r.t[i]) /\ ~IsWordform(r.t[i]) }
                           M == { i \in S : AnyUnif(r.t[i], E.lt, um) } IN
                       IF M = {} THEN Res(FALSE, E)
                       ELSE Res(TRUE, IF um THEN [E EXCEPT !.lt = r.t[MinS(M)]] ELSE E)
    [] p.k = "set" -> MatchSet(r, co, p.si, um, E)
    [] OTHER -> Res(BMTag(p, r, co, E), E)

RECURSIVE MatchMembers(_, _, _, _, _, _, _)
MatchAll(ps, j, r, co, um, E) ==          \* conjunction of the tags of a composite
  IF j > Len(ps) THEN Res(TRUE, E)
  ELSE LET x == MatchTag(ps[j], r, co, um, E) IN
       IF x.ok THEN MatchAll(ps, j+1, r, co, um, x.E) ELSE x
MatchMembers(S, sid, i, r, co, um, E) ==
  IF i > Len(S.m) THEN Res(FALSE, E)
  ELSE LET x == MatchAll(S.m[i], 1, r, co, um, E) IN
       IF x.ok /\ (~um \/ ~AssocHas(x.E.ut, sid) \/ AssocGet(x.E.ut, sid) = <<sid, i>>)
       THEN Res(TRUE, IF um /\ ~AssocHas(x.E.ut, sid) THEN [x.E EXCEPT !.ut = Append(@, <<sid, <<sid, i>>>>)] ELSE x.E)
       ELSE MatchMembers(S, sid, i+1, r, co, um, x.E)

RECURSIVE FFMatch(_, _, _, _, _, _), SetRun(_, _, _, _, _, _, _, _, _), SetOps(_, _, _, _, _, _), USets(_, _, _, _, _, _, _)
FFMatch(S, i, r, co, um, E) ==
  IF i > Len(S.ff) THEN Res(FALSE, E)
  ELSE LET x == MatchTag(S.ff[i], r, co, um, E) IN IF x.ok THEN x ELSE FFMatch(S, i+1, r, co, um, x.E)

\* one OR-free run of set operators; result [m, ff, i, E]
SetRun(S, k, m, ff, r, co, um, E, dummy) ==
  IF k >= Len(S.sets) \/ S.ops[k] = "OR" THEN [m |-> m, ff |-> ff, i |-> k + 1, E |-> E]
  ELSE CASE S.ops[k] = "+" ->
              IF m THEN LET x == MatchSet(r, co, S.sets[k+1], um, E) IN SetRun(S, k+1, x.ok, ff, r, co, um, x.E, 0)
              ELSE SetRun(S, k+1, m, ff, r, co, um, E, 0)
         [] S.ops[k] = "-" ->
              IF m THEN LET x == MatchSet(r, co, S.sets[k+1], um, E) IN SetRun(S, k+1, ~x.ok, ff, r, co, um, x.E, 0)
              ELSE SetRun(S, k+1, m, ff, r, co, um, E, 0)
         [] S.ops[k] = "^" ->
              LET x == MatchSet(r, co, S.sets[k+1], um, E) IN
              IF x.ok THEN SetRun(S, k+1, FALSE, TRUE, r, co, um, x.E, 0) ELSE SetRun(S, k+1, m, ff, r, co, um, x.E, 0)
SetOps(S, i, r, co, um, E) ==
  IF i > Len(S.sets) THEN Res(FALSE, E)
  ELSE LET x0 == MatchSet(r, co, S.sets[i], um, E)
           x  == SetRun(S, i, x0.ok, FALSE, r, co, um, x0.E, 0) IN
       IF x.m THEN Res(TRUE, x.E) ELSE IF x.ff THEN Res(FALSE, x.E) ELSE SetOps(S, x.i, r, co, um, x.E)

\* the sub-sets of us that match now (in order), threading the environment
USets(us, i, r, co, um, acc, E) ==
  IF i > Len(us) THEN <<acc, E>>
  ELSE LET x == MatchSet(r, co, us[i], um, E) IN
       USets(us, i+1, r, co, um, IF x.ok THEN Append(acc, us[i]) ELSE acc, x.E)

MatchSet(r, co, sid, um0, E) ==
  LET S == Case.sets[sid] IN
  IF S.ef = 0 /\ ~um0 THEN Res(BMSet(r, co, sid, E), E)
  ELSE LET um == um0 \/ S.tu = 1 IN
  CASE S.k = "any" -> Res(TRUE, E)
    [] S.k = "list" ->
         LET f == FFMatch(S, 1, r, co, um, E) IN
         IF f.ok THEN Res(FALSE, f.E) ELSE MatchMembers(S, sid, 1, r, co, um, f.E)
    [] S.k = "su" ->
         IF AssocHas(E.us, sid)
         THEN LET x == USets(AssocGet(E.us, sid), 1, r, co, um0, <<>>, E) IN Res(x[1] # <<>>, x[2])
         ELSE LET x == USets(S.sets, 1, r, co, um, <<>>, E) IN
              IF x[1] = <<>> THEN Res(FALSE, x[2]) ELSE Res(TRUE, [x[2] EXCEPT !.us = AssocPut(@, sid, x[1])])
    [] S.k = "ops" ->
         LET x == SetOps(S, 1, r, co, um, E) IN
         IF ~um THEN x
         ELSE LET B == { i \in DOMAIN S.sets : AssocHas(x.E.ut, S.sets[i]) } IN
              IF B = {} THEN x
              ELSE LET v == AssocGet(x.E.ut, S.sets[MinS(B)])
                       RECURSIVE P(_, _)
                       P(f, i) == IF i > Len(S.sets) THEN f ELSE P(AssocPut(f, S.sets[i], v), i+1)
                   IN Res(x.ok, [x.E EXCEPT !.ut = P(@, 1)])
=============================================================================
