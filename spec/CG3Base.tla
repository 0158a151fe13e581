------------------------------ MODULE CG3Base ------------------------------
(***************************************************************************)
(* Shared helpers and the representation of the system state.             *)
(*                                                                         *)
(* A *case* is one (grammar, options, input stream, observed output)       *)
(* tuple.  Cases are read from an ndjson file; the variable cid selects    *)
(* the case whose behaviour is being explored.                             *)
(*                                                                         *)
(* Reading  == [t   : Seq(tag)   tags in print order, t[1] is the wordform *)
(*              map : BOOLEAN    closed to further mapping                 *)
(*              num : Int        sort key within the cohort                *)
(*              del, np, imm : BOOLEAN  deleted / not printed / protected  *)
(*              hit : Seq(rule number)]                                    *)
(* Chain   == Seq(Reading): a main reading followed by its sub-readings    *)
(* Cohort  == [u: unique number, w: wordform, wt: Seq(tag), rs, del, dly,  *)
(*             ign : Seq(Chain), ...]                                      *)
(* Window  == [cs : Seq(Cohort) (cs[1] is the >>> cohort), ...]            *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

CaseFile == IOEnv.CG3_CASES
Cases    == ndJsonDeserialize(CaseFile)

VARIABLE cid                    \* index of the case being explored

Case  == Cases[cid]

Range(s) == { s[i] : i \in DOMAIN s }
Last(s)  == s[Len(s)]
Has(s, x) == \E i \in DOMAIN s : s[i] = x
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

RECURSIVE CatTo(_, _)
CatTo(ss, n) == IF n = 0 THEN <<>> ELSE CatTo(ss, n-1) \o ss[n]
Cat(ss) == CatTo(ss, Len(ss))               \* concatenation of a sequence of sequences

Force(s) == s \o <<>>                        \* make TLC evaluate a sequence eagerly
Map(Op(_), s) == [i \in DOMAIN s |-> Op(s[i])] \o <<>>
RemoveAt(s, i) == SubSeq(s, 1, i-1) \o SubSeq(s, i+1, Len(s))
InsertAt(s, i, xs) == SubSeq(s, 1, i-1) \o xs \o SubSeq(s, i, Len(s))
IndexOf(s, x) == LET S == { i \in DOMAIN s : s[i] = x } IN
                 IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
MinS(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxS(S) == CHOOSE x \in S : \A y \in S : x >= y

\* order-preserving removal of duplicates
RECURSIVE UniqTo(_, _)
UniqTo(s, n) == IF n = 0 THEN <<>>
                ELSE LET r == UniqTo(s, n-1) IN IF Has(r, s[n]) THEN r ELSE Append(r, s[n])
Uniq(s) == UniqTo(s, Len(s))

\* insertion of x into s sorted by key K (stable)
InsSorted(K(_), s, x) ==
  LET S == { i \in DOMAIN s : K(s[i]) > K(x) }
      p == IF S = {} THEN Len(s) + 1 ELSE MinS(S)
  IN  InsertAt(s, p, <<x>>)
RECURSIVE SortByTo(_, _, _)
SortByTo(K(_), s, n) == IF n = 0 THEN <<>> ELSE InsSorted(K, SortByTo(K, s, n-1), s[n])
SortBy(K(_), s) == SortByTo(K, s, Len(s))
RECURSIVE SetToSortedSeq(_)
SetToSortedSeq(S) == IF S = {} THEN <<>> ELSE LET m == MinS(S) IN <<m>> \o SetToSortedSeq(S \ {m})

Ch(s, i)   == SubSeq(s, i, i)                \* the i-th character of a TLA+ string
Chars(s)   == [i \in 1..Len(s) |-> SubSeq(s, i, i)] \o <<>>
RECURSIVE JoinTo(_, _)
JoinTo(cs, n) == IF n = 0 THEN "" ELSE JoinTo(cs, n-1) \o cs[n]
Join(cs)   == JoinTo(cs, Len(cs))
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p

IsWordform(t) == Len(t) > 4 /\ SubSeq(t, 1, 2) = "\"<" /\ SubSeq(t, Len(t)-1, Len(t)) = ">\""
IsBaseform(t) == Len(t) > 2 /\ Ch(t, 1) = "\"" /\ Ch(t, Len(t)) = "\"" /\ ~IsWordform(t)
IsTextual(t)  == Len(t) > 1 /\ ((Ch(t, 1) = "\"" /\ Ch(t, Len(t)) = "\"")
                              \/ (Ch(t, 1) = "<" /\ Ch(t, Len(t)) = ">"))
=============================================================================
