------------------------------ MODULE CG3Rules ------------------------------
(***************************************************************************)
(* The effect of applying one rule to one cohort: which readings are       *)
(* targets (EvalReadings), what each reading-level action does (ActReading) *)
(* and what happens once per cohort (ActCohort).                           *)
(*                                                                         *)
(* G, the state threaded through a rule application:                       *)
(*   W      the windows                                                    *)
(*   tried  set of <<rule, cohort>> already tried since the last change    *)
(*   ch     did the rule change anything?                                  *)
(*   jump   rule number of the anchor to continue from (0: none)           *)
(*   delim  the window was split                                           *)
(*   next   position in the window to continue from (0: the next cohort)   *)
(*   stop   leave the reading loop                                         *)
(*   sel, rem   chains selected / to be removed in this cohort             *)
(***************************************************************************)
EXTENDS CG3Context

Rule(ri) == Case.rules[ri]
FlagOf(r, f) == Has(r.fl, f)

\* flags as they are after defaults
ItersByDefault == {"SELECT", "REMOVE", "IFF", "DELIMIT", "REMCOHORT", "MOVE", "SWITCH"}
NoIterate(r) == FlagOf(r, "NOITERATE") \/ (~FlagOf(r, "ITERATE") /\ r.type \notin ItersByDefault)
IsUnsafe(r) == \/ FlagOf(r, "UNSAFE") \/ FlagOf(r, "UNMAPLAST")
MayEmpty(r) == IsUnsafe(r) \/ (Case.opt.unsafe = 1 /\ ~FlagOf(r, "SAFE"))
SafeUnmap(r) == FlagOf(r, "SAFE") \/ ~FlagOf(r, "UNSAFE")

MapTag(r) == LET S == { i \in DOMAIN r.t : IsMap(r.t[i]) } IN IF S = {} THEN "" ELSE r.t[MinS(S)]
EndTag == "<<<"
BeginTag == ">>>"

CoOf(W, u) == At(W, PosOf(W, u))
SetCo(W, p, co) == [W EXCEPT !.ws[p[1]].cs[p[2]] = co]
PutRd(W, p, i, k, r) == [W EXCEPT !.ws[p[1]].cs[p[2]].rs[i][k] = r]
Hit(r, ri) == [r EXCEPT !.hit = Append(@, ri)]

(******************************* tag lists *********************************)
\* the tags of a rule's tag list, as bound in environment E
RECURSIVE TagsOf(_, _, _)
TagsOf(ml, i, E) ==
  IF i > Len(ml) THEN <<>>
  ELSE LET x == ml[i] IN
       (CASE x.k = "lit" -> <<x.s>>
          [] x.k = "any" -> <<"*">>
          [] x.k = "vs" -> <<VsText(x.ps, E)>>
          [] x.k = "ut" -> UtTags(x.si, E)) \o TagsOf(ml, i+1, E)
TagList(ml, E) == TagsOf(ml, 1, E)

\* the tags of a sublist that are present on the reading (patterns resolve to the tag they match)
ItemTag(x, r, co, E) ==
  CASE x.k \in {"lit", "any"} -> IF x.k = "lit" /\ Has(r.t, x.s) THEN x.s ELSE ""
    [] x.k = "vs" -> LET s == VsText(x.ps, E) IN IF Has(r.t, s) THEN s ELSE ""
    [] x.k = "ut" -> ""
    [] OTHER -> LET S == { i \in DOMAIN r.t : BMTag(x, [r EXCEPT !.t = <<r.t[i]>>], co, E) } IN
                IF S = {} THEN "" ELSE r.t[MinS(S)]
RECURSIVE FillTags(_, _, _, _, _)
FillTags(sl, i, r, co, E) ==
  IF i > Len(sl) THEN <<>>
  ELSE (IF sl[i].k = "ut" THEN SelectSeq(TagsOf(<<sl[i]>>, 1, E), LAMBDA t : Has(r.t, t))
        ELSE LET t == ItemTag(sl[i], r, co, E) IN IF t = "" THEN <<>> ELSE <<t>>) \o FillTags(sl, i+1, r, co, E)
\* every tag of the reading matched by an EXCEPT list
ExceptTags(sl, r, co, E) ==
  { r.t[j] : j \in { q \in DOMAIN r.t : \E i \in DOMAIN sl :
       IF sl[i].k \in {"lit", "vs", "ut"} THEN Has(TagsOf(<<sl[i]>>, 1, E), r.t[q])
       ELSE sl[i].k # "any" /\ BMTag(sl[i], [r EXCEPT !.t = <<r.t[q]>>], co, E) } }

AddTag(r, t) == [r EXCEPT !.t = Append(@, t), !.bf = IF @ = "" /\ IsBaseform(t) THEN t ELSE @]
RECURSIVE AddTags(_, _, _)
AddTags(r, ts, i) == IF i > Len(ts) THEN r ELSE AddTags(AddTag(r, ts[i]), ts, i+1)
DelTag(r, t) == [r EXCEPT !.t = SelectSeq(@, LAMBDA x : x # t), !.bf = IF @ = t THEN "" ELSE @]
\* recompute what is derived from the tag list
Reflow(r) == IF r.bf # "" THEN r
             ELSE LET S == { i \in DOMAIN r.t : IsBaseform(r.t[i]) } IN
                  IF S = {} THEN r ELSE [r EXCEPT !.bf = r.t[MinS(S)]]
NonMap(ts) == SelectSeq(ts, LAMBDA t : ~IsMap(t))
MapsOf(ts) == SelectSeq(ts, LAMBDA t : IsMap(t))

(******************************* readings **********************************)
NewReading(num) == [t |-> <<>>, bf |-> "", map |-> FALSE, num |-> num, del |-> FALSE, np |-> FALSE, imm |-> FALSE, hit |-> <<>>]
NextNum(co) == Len(co.rs) * 1000 + 1000
BaseFromWord(w) == IF Len(w) < 5 THEN w ELSE "\"" \o SubSeq(w, 3, Len(w)-2) \o "\""
MagicReading(co) == [NewReading(NextNum(co)) EXCEPT !.t = <<co.w>>, !.bf = BaseFromWord(co.w), !.np = TRUE]

(* Give reading r (of chain ch, sub-reading k) the mapping tags maps: the  *)
(* last one (or the one it already had) stays on r, every other one goes   *)
(* on a new reading that is otherwise a copy of r.                         *)
RECURSIVE SplitLoop(_, _, _, _, _, _, _, _, _)
SplitLoop(maps, j, left, kept, base, tail, seen, mapped, acc) ==
  IF j > Len(maps) THEN acc
  ELSE LET t == maps[j]
           dup == t = kept \/ \E c \in seen \cup Range(acc) : PlainKey(c[1]) = PlainKey(base) /\ MapTag(c[1]) = t
       IN IF dup THEN SplitLoop(maps, j+1, left, kept, base, tail, seen, mapped, acc)
          ELSE LET nr == AddTag([base EXCEPT !.map = mapped, !.num = @ - left], t) IN
               SplitLoop(maps, j+1, left-1, kept, base, tail, seen, mapped, Append(acc, <<nr>> \o tail))
\* result: [r: the reading, new: chains to append to the cohort]
SplitMap(maps0, r, tail, chains, mapped) ==
  IF maps0 = <<>> THEN [r |-> r, new |-> <<>>]
  ELSE LET old == MapTag(r)
           base == IF old = "" THEN r ELSE DelTag(r, old)
           maps == IF old = "" THEN maps0 ELSE Append(maps0, old)
           n == Len(maps)
       IN [r |-> AddTag([base EXCEPT !.map = mapped], maps[n]),
           new |-> SplitLoop(SubSeq(maps, 1, n-1), 1, n-1, maps[n], base, tail, Range(chains), mapped, <<>>)]

\* readings written in a tag list: a new one starts at every baseform
RECURSIVE GroupReadings(_, _, _)
GroupReadings(ts, i, acc) ==
  IF i > Len(ts) THEN acc
  ELSE IF IsBaseform(ts[i]) THEN GroupReadings(ts, i+1, Append(acc, <<ts[i]>>))
  ELSE IF acc = <<>> THEN GroupReadings(ts, i+1, acc)
  ELSE GroupReadings(ts, i+1, [acc EXCEPT ![Len(acc)] = Append(@, ts[i])])
\* add the readings rds (tag sequences, wordform excluded) to cohort co
RECURSIVE AddReadings(_, _, _, _)
AddReadings(co, rds, i, ri) ==
  IF i > Len(rds) THEN co
  ELSE LET r0 == AddTags([NewReading(NextNum(co)) EXCEPT !.hit = <<ri>>], <<co.w>> \o NonMap(rds[i]), 1)
           s == SplitMap(MapsOf(rds[i]), r0, <<>>, co.rs, FALSE)
           \* the split-off readings were copied before the rule finished with the new one
       IN AddReadings([co EXCEPT !.rs = @ \o s.new \o << <<s.r>> >>], rds, i+1, ri)

(************************** where an action applies ************************)
\* the reading an action works on: the attached one if a test had A, else the target
ApplyTo(ri, u, i, E) ==
  IF E.atc # 0 THEN [u |-> E.atc, i |-> E.ath, k |-> E.ats]
  ELSE [u |-> u, i |-> i, k |-> SubIx(CoOf(E.W, u).rs[i], Rule(ri).sub)]

Changed(G) == [G EXCEPT !.ch = TRUE]
Forget(G) == [G EXCEPT !.tried = {}]

(************************** reading-level actions **************************)
\* position in t of the first occurrence of the sequence sp, or 0
SpotAt(t, sp) ==
  LET S == { i \in 1..(Len(t) + 1 - Len(sp)) : \A j \in 1..Len(sp) : t[i+j-1] = sp[j] } IN
  IF S = {} \/ sp = <<>> THEN 0 ELSE MinS(S)
RECURSIVE UpTo(_, _)
UpTo(ts, i) == IF i > Len(ts) \/ ts[i] = "*" THEN <<>> ELSE <<ts[i]>> \o UpTo(ts, i+1)
\* r with tags ts added at the spot of a BEFORE/AFTER clause (or at the end)
InsertTags(rule, r, co, ts, E) ==
  LET sp == IF rule.cs1l = <<>> THEN <<>> ELSE FillTags(rule.cs1l, 1, r, co, E)
      s == IF sp = <<>> THEN 0 ELSE SpotAt(r.t, sp)
      at == IF s = 0 THEN 0 ELSE IF FlagOf(rule, "AFTER") THEN s + Len(sp) ELSE s
  IN IF at = 0 \/ at > Len(r.t) THEN AddTags(r, NonMap(ts), 1)
     ELSE Reflow([r EXCEPT !.t = SubSeq(@, 1, at-1) \o NonMap(UpTo(ts, 1)) \o SubSeq(@, at, Len(@))])
HashKey(r) == <<Range(r.t), MapTag(r)>>

RepAll(t, x, new) == Cat([j \in DOMAIN t |-> IF t[j] = x THEN new ELSE <<t[j]>>])
\* the tag list of a reading after SUBSTITUTE rem -> new
SubstTags(t, rem, new) ==
  IF Len(rem) = 1 THEN RepAll(t, rem[1], new)
  ELSE LET last == MaxS({ j \in DOMAIN t : Has(rem, t[j]) })
           keep(j) == IF j = last THEN new ELSE IF Has(rem, t[j]) THEN <<>> ELSE <<t[j]>>
       IN Cat([j \in DOMAIN t |-> keep(j)])

DoAdd(rule, ri, a, G, E) ==
  LET p == PosOf(G.W, a.u)
      co == At(G.W, p)
      r0 == co.rs[a.i][a.k]
      r1 == Hit([r0 EXCEPT !.np = FALSE], ri)
      ts == TagList(rule.ml, E)
      r2 == InsertTags(rule, r1, co, ts, E)
      s == SplitMap(MapsOf(ts), r2, SubSeq(co.rs[a.i], a.k+1, Len(co.rs[a.i])), co.rs, rule.type = "MAP")
      r3 == IF rule.type = "MAP" THEN [s.r EXCEPT !.map = TRUE] ELSE s.r
      co2 == [co EXCEPT !.rs[a.i][a.k] = r3]
      W2 == SetCo(G.W, p, [co2 EXCEPT !.rs = @ \o s.new])
  IN [Forget(G) EXCEPT !.W = W2, !.ch = @ \/ HashKey(r3) # HashKey(r0)]

DoReplace(rule, ri, a, G, E) ==
  LET p == PosOf(G.W, a.u)
      co == At(G.W, p)
      r0 == co.rs[a.i][a.k]
      ex == IF rule.sl = <<>> THEN <<>>
            ELSE Cat([i \in DOMAIN rule.sl |-> SelectSeq(r0.t, LAMBDA t : t \in ExceptTags(<<rule.sl[i]>>, r0, co, E))])
      ts == TagList(rule.ml, E)
      r1 == AddTags([r0 EXCEPT !.t = <<co.w>>, !.bf = "", !.np = FALSE, !.hit = Append(@, ri)], NonMap(ts) \o ex, 1)
      r2 == IF r1.bf = "" /\ r0.bf # "" THEN AddTag(r1, r0.bf) ELSE r1
      s == SplitMap(MapsOf(ts), r2, SubSeq(co.rs[a.i], a.k+1, Len(co.rs[a.i])), co.rs, TRUE)
      co2 == [co EXCEPT !.rs[a.i][a.k] = s.r]
  IN [Forget(G) EXCEPT !.W = SetCo(G.W, p, [co2 EXCEPT !.rs = @ \o s.new]), !.ch = @ \/ HashKey(s.r) # HashKey(r0)]

RECURSIVE RewordChains(_, _, _)
RewordR(r, old, new) == AddTag(DelTag(r, old), new)
RewordChains(cs, old, new) == [i \in DOMAIN cs |-> [cs[i] EXCEPT ![1] = RewordR(@, old, new)]] \o <<>>
DoSubst(rule, ri, a, G, E) ==
  LET p == PosOf(G.W, a.u)
      co == At(G.W, p)
      r0 == co.rs[a.i][a.k]
      app == Len(rule.sl) = 1 /\ rule.sl[1].k = "any"
      rem == IF app THEN <<>> ELSE FillTags(rule.sl, 1, r0, co, E)
      hitany == app \/ rem # <<>>
      new == UpTo(TagList(rule.ml, E), 1)
      t2 == IF app THEN r0.t \o NonMap(new) ELSE SubstTags(r0.t, rem, NonMap(new))
      r1 == Reflow([r0 EXCEPT !.t = t2, !.bf = IF Has(rem, @) THEN "" ELSE @, !.np = FALSE, !.hit = Append(@, ri)])
      s == SplitMap(MapsOf(new), r1, SubSeq(co.rs[a.i], a.k+1, Len(co.rs[a.i])), co.rs, TRUE)
      co2 == [co EXCEPT !.rs[a.i][a.k] = s.r]
      co3 == [co2 EXCEPT !.rs = @ \o s.new]
      wfs == SelectSeq(new, LAMBDA t : IsWordform(t))
      wf == IF wfs = <<>> THEN "" ELSE Last(wfs)
      co4 == IF wf = "" \/ wf = co.w THEN co3
             ELSE [co3 EXCEPT !.w = wf, !.rs = RewordChains(@, co.w, wf), !.del = RewordChains(@, co.w, wf),
                              !.dly = RewordChains(@, co.w, wf), !.ign = RewordChains(@, co.w, wf)]
  IN IF ~hitany THEN G
     ELSE [Forget(G) EXCEPT !.W = SetCo(G.W, p, co4), !.ch = @ \/ HashKey(co4.rs[a.i][a.k]) # HashKey(r0)]

DoAppend(rule, ri, a, G, E) ==
  LET p == PosOf(G.W, a.u)
      co0 == At(G.W, p)
      co1 == [co0 EXCEPT !.rs[a.i][a.k] = Hit(@, ri)]
      rds == GroupReadings(TagList(rule.ml, E), 1, <<>>)
      co2 == AddReadings(co1, rds, 1, ri)
      co3 == IF Len(co2.rs) > 1 THEN [co2 EXCEPT !.rs = SelectSeq(@, LAMBDA c : ~c[1].np)] ELSE co2
  IN [Forget(G) EXCEPT !.W = SetCo(G.W, p, co3), !.ch = TRUE, !.stop = TRUE]

RECURSIVE DelAll(_, _)
DelAll(r, S) == IF S = {} THEN r ELSE LET t == CHOOSE x \in S : TRUE IN DelAll(DelTag(r, t), S \ {t})
DoCopy(rule, ri, a, G, E) ==
  LET p == PosOf(G.W, a.u)
      co0 == At(G.W, p)
      src == co0.rs[a.i]
      ex == IF rule.sl = <<>> THEN {} ELSE ExceptTags(rule.sl, src[1], co0, E) \cup Range(TagList(rule.sl, E))
      c1 == [k \in DOMAIN src |-> DelAll(src[k], ex)] \o <<>>
      c2 == [c1 EXCEPT ![1] = [@ EXCEPT !.num = @ + 100, !.np = FALSE, !.hit = Append(@, ri)]]
      ts == TagList(rule.ml, E)
      co1 == [co0 EXCEPT !.rs[a.i][a.k] = Hit(@, ri)]
      r2 == InsertTags(rule, c2[1], co0, ts, E)
      s == SplitMap(MapsOf(ts), r2, Tail(c2), Append(co1.rs, c2), TRUE)
      c3 == [c2 EXCEPT ![1] = Reflow(s.r)]
  IN [Forget(G) EXCEPT !.W = SetCo(G.W, p, [co1 EXCEPT !.rs = Append(@, c3) \o s.new]), !.ch = TRUE]

DoUnmapR(r, ri) ==
  LET m == MapTag(r)
      r1 == IF m = "" THEN r ELSE [DelTag(r, m) EXCEPT !.np = FALSE]
      c == m # "" \/ r.map
  IN [c |-> c, r |-> IF c THEN Hit([r1 EXCEPT !.map = FALSE], ri) ELSE r]

\* RESTORE: move back the readings (of the list named lst) that match the rule's set
RECURSIVE RestoreLoop(_, _, _, _, _, _)
RestoreLoop(xs, i, sid, co, E, ri) ==        \* <<moved, kept>>
  IF i > Len(xs) THEN << <<>>, <<>> >>
  ELSE LET y == RestoreLoop(xs, i+1, sid, co, E, ri) IN
       IF BMSet(xs[i][1], co, sid, E) THEN << << [xs[i] EXCEPT ![1] = Hit([@ EXCEPT !.del = FALSE], ri)] >> \o y[1], y[2] >>
       ELSE << y[1], <<xs[i]>> \o y[2] >>
DoRestore(rule, ri, a, G, E) ==
  LET p == PosOf(G.W, a.u)
      co == At(G.W, p)
      dl == FlagOf(rule, "DELAYED")
      ig == FlagOf(rule, "IGNORED") /\ ~dl
      xs == IF dl THEN co.dly ELSE IF ig THEN co.ign ELSE co.del
      m == RestoreLoop(xs, 1, rule.mset, co, E, ri)
      co1 == [co EXCEPT !.rs = @ \o m[1], !.dly = IF dl THEN m[2] ELSE @, !.ign = IF ig THEN m[2] ELSE @,
                        !.del = IF ~dl /\ ~ig THEN m[2] ELSE @]
      co2 == IF m[1] = <<>> THEN co1 ELSE [co1 EXCEPT !.rs[a.i][a.k] = Hit(@, ri)]
  IN [(IF m[1] = <<>> THEN G ELSE Forget(G)) EXCEPT !.W = SetCo(G.W, p, co2), !.stop = TRUE]

TraceAt(ri, a, G) == [G EXCEPT !.W = LET p == PosOf(G.W, a.u) IN
                                     PutRd(G.W, p, a.i, a.k, Hit(At(G.W, p).rs[a.i][a.k], ri))]

(************************** cohort-level actions ***************************)
\* SELECT (or IFF whose contexts held somewhere)
DoSelect(rule, ri, u, G) ==
  LET p == PosOf(G.W, u)
      co == At(G.W, p)
      n == Len(co.rs)
      hitc(c) == IF rule.sub = GSRANY THEN [c EXCEPT ![1] = Hit(@, ri)]
                 ELSE IF ~SubOK(c, rule.sub) THEN c ELSE [c EXCEPT ![SubIx(c, rule.sub)] = Hit(@, ri)]
      rs == [i \in 1..n |-> hitc(co.rs[i])] \o <<>>
      keep == SetToSortedSeq({ i \in 1..n : Has(G.sel, i) })
      drop == SetToSortedSeq({ i \in 1..n : ~Has(G.sel, i) })
      kept == [i \in DOMAIN keep |-> rs[keep[i]]] \o <<>>
      dropped == [i \in DOMAIN drop |-> [rs[drop[i]] EXCEPT ![1] = [@ EXCEPT !.del = TRUE]]] \o <<>>
      co2 == IF FlagOf(rule, "DELAYED") THEN [co EXCEPT !.rs = kept, !.dly = @ \o dropped]
             ELSE IF FlagOf(rule, "IGNORED") THEN [co EXCEPT !.rs = kept, !.ign = @ \o dropped]
             ELSE [co EXCEPT !.rs = kept, !.del = @ \o dropped]
  IN IF G.sel = <<>> \/ Len(G.sel) >= n THEN G
     ELSE [G EXCEPT !.W = SetCo(G.W, p, co2), !.ch = TRUE]

\* the order in which the survivors end up when removed readings are swapped to the back
RECURSIVE SwapOut(_, _, _, _)
SwapInner(ix, x, oz) ==
  LET RECURSIVE Lp(_, _, _)
      Lp(s, i, z) == IF i > z THEN <<s, z>>
                     ELSE IF s[i] = x THEN Lp([s EXCEPT ![i] = s[z], ![z] = s[i]], i+1, z-1) ELSE Lp(s, i+1, z)
  IN Lp(ix, 1, oz)
SwapOut(ix, rem, k, oz) ==
  IF k = 0 THEN SubSeq(ix, 1, oz) ELSE LET y == SwapInner(ix, rem[k], oz) IN SwapOut(y[1], rem, k-1, y[2])
DoRemove(rule, ri, u, G) ==
  LET p == PosOf(G.W, u)
      co == At(G.W, p)
      n == Len(co.rs)
      gone == [i \in DOMAIN G.rem |-> [co.rs[G.rem[i]] EXCEPT ![1] = [@ EXCEPT !.del = TRUE]]] \o <<>>
      left == SwapOut([i \in 1..n |-> i] \o <<>>, G.rem, Len(G.rem), n)
      kept == [i \in DOMAIN left |-> co.rs[left[i]]] \o <<>>
      co1 == IF FlagOf(rule, "DELAYED") THEN [co EXCEPT !.rs = kept, !.dly = @ \o gone]
             ELSE IF FlagOf(rule, "IGNORED") THEN [co EXCEPT !.rs = kept, !.ign = @ \o gone]
             ELSE [co EXCEPT !.rs = kept, !.del = @ \o gone]
      co2 == IF kept = <<>> THEN [co1 EXCEPT !.rs = << <<MagicReading(co1)>> >>] ELSE co1
  IN IF G.rem = <<>> \/ ~(Len(G.rem) < n \/ MayEmpty(rule)) THEN G
     ELSE [G EXCEPT !.W = SetCo(G.W, p, co2), !.ch = TRUE]

RECURSIVE RemVars(_, _, _, _)
VarMatch(x, name, E) == CASE x.k = "rx" -> RxHas(x, name)
                          [] x.k = "ic" -> ICaseEq(x.s, name)
                          [] OTHER -> TagsOf(<<x>>, 1, E)[1] = name
RemVars(ml, i, vs, E) ==
  IF i > Len(ml) THEN vs
  ELSE LET S == { j \in DOMAIN vs : VarMatch(ml[i], vs[j][1], E) } IN
       RemVars(ml, i+1, IF S = {} THEN vs ELSE RemoveAt(vs, MinS(S)), E)
DoSetVar(rule, G, E) ==
  LET n == TagList(rule.ml, E)[1]
      v == TagList(rule.sl, E)[1]
      W1 == [G.W EXCEPT !.vars = AssocPut(@, n, v)]
      G1 == IF AssocHas(G.W.vars, n) /\ AssocGet(G.W.vars, n) = v THEN G ELSE Forget(G)
  IN [G1 EXCEPT !.W = IF FlagOf(rule, "OUTPUT") THEN [W1 EXCEPT !.ws[W1.cur].vout = Append(SelectSeq(@, LAMBDA x : x # n), n)] ELSE W1]
DoRemVar(rule, G, E) ==
  LET vs == RemVars(rule.ml, 1, G.W.vars, E)
      goneV == SelectSeq(G.W.vars, LAMBDA x : ~AssocHas(vs, x[1]))
      W1 == [G.W EXCEPT !.vars = vs]
      names == [i \in DOMAIN goneV |-> goneV[i][1]] \o <<>>
      G1 == IF names = <<>> THEN G ELSE Forget(G)
  IN [G1 EXCEPT !.W = IF FlagOf(rule, "OUTPUT")
                     THEN [W1 EXCEPT !.ws[W1.cur].vout = SelectSeq(@, LAMBDA x : ~Has(names, x)) \o names] ELSE W1]
=============================================================================
