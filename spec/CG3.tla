-------------------------------- MODULE CG3 --------------------------------
(***************************************************************************)
(* The top module: one behaviour per case, checked against the output the *)
(* implementation produced for the same grammar, options and input.        *)
(***************************************************************************)
EXTENDS CG3Engine

vars == <<cid, S>>
Init == cid \in 1..Len(Cases) /\ S = S0
Next == /\ S.pc # "done"
        /\ LET n == Step(S) IN
           /\ S' = n
           /\ n.pc = "done" => PrintT(IF n.bad = <<>> THEN <<"@OK", Case.id, n.hits>> ELSE IF n.bad = <<"skip">> THEN <<"@SKIP", Case.id, 0>> ELSE <<"@BAD", Case.id, n.bad>>)
        /\ UNCHANGED cid
Spec == Init /\ [][Next]_vars
=============================================================================
