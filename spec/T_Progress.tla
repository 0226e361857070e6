----------------------------- MODULE T_Progress -----------------------------
(***************************************************************************)
(* Recorded runs of scans wrapped in the progress bar: what was done to    *)
(* bars (Open, Update, Close, in order), End at the end of a run, and the  *)
(* results of the wrapped and of the bare scan.                            *)
(***************************************************************************)
EXTENDS TraceBase, Integers
None == [st |-> "none", n |-> 0]
(* the actions of ProgressBar on s, as enabling conditions *)
Open == /\ Is("Open")
        /\ Consume(Chk("SecondBar", s.st = "none") \cup Chk("Length", Ev.total = H.n) \cup Chk("Message", Ev.msg),
                   [st |-> "open", n |-> 0])
Update == /\ Is("Update")
          /\ Consume(Chk("UpdateOutside", s.st = "open") \cup Chk("Exceeds", Ev.k >= 0 /\ s.n + Ev.k <= H.n),
                     [s EXCEPT !.n = @ + Ev.k])
Close == /\ Is("Close")
         /\ Consume(Chk("CloseOutside", s.st = "open") \cup Chk("Incomplete", s.n = H.n), [s EXCEPT !.st = "closed"])
End == Is("End") /\ Consume(Chk("NotClosed", s.st = "closed"), None)
(* observable state of the bar when it is closed *)
Shown == Is("Shown") /\ Consume(Chk("Shown", Ev.n = H.n), s)
Result == /\ Is("Result")
          /\ Consume(Chk("Carry", MNear(Ev.carry, Ev.carry0, Tol)) \cup Chk("Outputs", MNear(Ev.out, Ev.out0, Tol)), s)
Init == tr \in 1..Len(Traces) /\ l = 1 /\ s = None /\ bad = {}
Next == l <= Len(T.ev) /\ (Open \/ Update \/ Close \/ End \/ Shown \/ Result \/ Raised)
Spec == Init /\ [][Next]_tvars
=============================================================================
