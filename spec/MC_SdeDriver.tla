---------------------------- MODULE MC_SdeDriver ----------------------------
EXTENDS SdeDriver, Json

(* small problems: every combination of a drift, a diffusion, a number of  *)
(* steps, of inner steps and a step length                                 *)
M(cf, e) == [c |-> RInt(cf), e |-> e]
Drifts == << <<<<>>>>,                                        \* 0
             <<<<M(1, <<0, 0>>), M(-2, <<1, 0>>)>>>>,         \* 1 - 2 x
             <<<<M(1, <<0, 1>>), M(1, <<1, 1>>)>>>>,          \* t + x t
             <<<<M(1, <<2, 0>>), M(-1, <<0, 2>>)>>>> >>       \* x^2 - t^2
Sigmas == << <<<<<<M(1, <<0, 0>>)>>>>>>,                       \* 1
             <<<<<<M(1, <<1, 0>>)>>>>>>,                       \* x
             <<<<<<M(2, <<0, 1>>)>>, <<M(-1, <<0, 0>>), M(1, <<1, 1>>)>>>>>> >>  \* [2 t, -1 + x t]

Problems == {[drift |-> Drifts[a], sigma |-> Sigmas[b], delta |-> d, n |-> n, m |-> m, x0 |-> <<R1>>] :
                a \in 1..Len(Drifts), b \in 1..Len(Sigmas), d \in {RHalf, R1}, n \in 1..2, m \in 1..2}

Init == /\ pr \in Problems
        /\ k = 0 /\ pc = "draw" /\ j = 0 /\ x = pr.x0 /\ c = <<>>
        /\ traj = <<pr.x0>> /\ log = <<>> /\ used = <<>>
        /\ PrintT("SCEN " \o ToJson(pr))

Coefs(nb) == IF nb = 1 THEN {<<<<RInt(a)>>, <<RInt(b)>>>> : a \in {-1, 2}, b \in {-1, 0, 1}}
             ELSE {<<<<RInt(a), RInt(1)>>, <<RInt(0), RInt(b)>>>> : a \in {-1, 2}, b \in {0, 1}}

Next == \/ \E cc \in Coefs(Len(pr.sigma[1])) : Draw(cc)
        \/ Inner
        \/ Emit
Spec == Init /\ [][Next]_vars
=============================================================================
