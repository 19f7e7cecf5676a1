----------------------------- MODULE SumcheckTrace -----------------------------
(* Recorded runs of the sumcheck prover and verifier, with honest and altered     *)
(* messages and claims.                                                           *)
EXTENDS Sumcheck, TraceBase
VARIABLES F, S
Init == TInit /\ F = << << 3 >>, << >> >> /\ S = << >>
Keep == F' = F
Same == UNCHANGED << F, S >>
TBegin == /\ Is("Begin") /\ F' = << E.p, << >> >>
          /\ S' = [n |-> E.n, terms |-> E.terms, orig |-> E.tabs, tabs |-> E.tabs, left |-> E.n, msgs |-> << >>, rs |-> << >>, true |-> TRUE]
          /\ E.max = ScDeg(E.terms) /\ E.vars = E.n
\* the prover's round, after the challenge r of the round before
TProve == /\ Is("Prove") /\ Keep
          /\ LET tb == TLCEval(IF E.first THEN S.tabs ELSE ScFixAll(F, S.tabs, E.r))
             IN S' = [S EXCEPT !.tabs = tb, !.left = @ - 1] /\ E.msg = ScMsg(F, S.terms, tb, S.left, ScDeg(S.terms))
\* the verifier's round
TRecv == /\ Is("Recv") /\ Keep
         /\ S' = [S EXCEPT !.msgs = Append(@, E.msg), !.rs = Append(@, E.r), !.true = @ /\ E.honest]
TTotal == Is("Total") /\ Same /\ E.v = ScTotal(F, S.terms, S.orig, S.n)
TAt == Is("At") /\ Same /\ E.v = ScEval(F, S.terms, S.orig, E.x)
TCheck ==
  /\ Is("Check") /\ Same
  /\ LET v == TLCEval(ScVerify(F, E.claim, S.msgs, S.rs)) tot == TLCEval(ScTotal(F, S.terms, S.orig, S.n))
     IN /\ E.ok = v[1]
        /\ (E.ok => (E.point = S.rs /\ E.exp = v[2]))
        \* complete, and sound as far as challenges allow
        /\ ((S.true /\ E.claim = tot) => (E.ok /\ E.exp = ScEval(F, S.terms, S.orig, S.rs)))
        /\ ((S.true /\ E.claim # tot) => ~E.ok)
TInterp == Is("Interp") /\ Same /\ E.v = ScInterp(F, E.y, E.x)
TField == Is("Field") /\ F' = << E.p, << >> >> /\ S' = S
\* keys are equal exactly when everything in them is
TKeys == Is("Keys") /\ Same /\ E.eq = (E.a = E.b) /\ E.ne = (E.a # E.b) /\ E.veq = (E.a.max = E.b.max /\ E.a.vars = E.b.vars)
Next == TBegin \/ TField \/ TProve \/ TRecv \/ TTotal \/ TAt \/ TCheck \/ TInterp \/ TKeys \/ (TDone /\ UNCHANGED tvars /\ Same)
=============================================================================
