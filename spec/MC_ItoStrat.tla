---------------------------- MODULE MC_ItoStrat ----------------------------
EXTENDS ItoStrat, Json
(* A process is given in one calculus and converted back and forth.        *)
VARIABLES orig, drift, sigma, calc, start, n
vars == <<orig, drift, sigma, calc, start, n>>

M(c, e) == [c |-> RInt(c), e |-> e]
Drifts == <<<<<<M(1, <<1, 0, 0>>)>>, <<M(-1, <<0, 0, 1>>), M(2, <<1, 1, 0>>)>>>>>>
(* entries of a 2 x m diffusion *)
Entries == {<<>>, <<M(1, <<0, 0, 0>>)>>, <<M(2, <<1, 0, 0>>)>>, <<M(-1, <<0, 1, 1>>)>>, <<M(1, <<1, 1, 0>>)>>}
Sigmas == {<<<<a>>, <<b>>>> : a, b \in Entries}
          \cup {<<<<a, b>>, <<c, <<M(3, <<0, 1, 0>>)>>>>>> : a, b, c \in Entries}
Points == {<<<<RInt(1), RInt(-2)>>, RInt(1)>>, <<<<RHalf, RInt(3)>>, RInt(2)>>}
Tests == {<<M(1, <<1, 0, 0>>)>>, <<M(1, <<0, 1, 0>>)>>, <<M(1, <<2, 0, 0>>)>>, <<M(1, <<1, 1, 0>>), M(1, <<0, 3, 0>>)>>}

Init == /\ orig \in {Drifts[i] : i \in 1..Len(Drifts)} /\ drift = orig /\ sigma \in Sigmas
        /\ calc \in {"ito", "strat"} /\ start = calc /\ n = 0
        /\ PrintT("SCEN " \o ToJson([drift |-> drift, sigma |-> sigma, calc |-> calc]))
ToStrat == calc = "ito" /\ drift' = StratDrift(drift, sigma) /\ calc' = "strat"
ToIto == calc = "strat" /\ drift' = ItoDrift(drift, sigma) /\ calc' = "ito"
Next == n < 3 /\ n' = n + 1 /\ (ToStrat \/ ToIto) /\ UNCHANGED <<orig, sigma, start>>
Spec == Init /\ [][Next]_vars

Gen(dr, cal, g, p) == IF cal = "ito" THEN GenIto(dr, sigma, g, p[1], p[2]) ELSE GenStrat(dr, sigma, g, p[1], p[2])
(* conversions never change the process *)
SameProcess == \A g \in Tests : \A p \in Points : Gen(drift, calc, g, p) = Gen(orig, start, g, p)
RoundTrip == calc = start => \A p \in Points : FEval(drift, p[1], p[2]) = FEval(orig, p[1], p[2])
Additive == (\A i \in 1..2 : \A k \in 1..Len(sigma[1]) : \A m \in 1..Len(sigma[i][k]) :
                sigma[i][k][m].e[1] = 0 /\ sigma[i][k][m].e[2] = 0)
            => \A p \in Points : FEval(drift, p[1], p[2]) = FEval(orig, p[1], p[2])
=============================================================================
