----------------------------- MODULE T_Pathwise -----------------------------
(***************************************************************************)
(* Recorded runs of the driver with a fine path, and of the pathwise       *)
(* Euler-Maruyama solver along the increments the driver reported.         *)
(*   Start   the grids of both, the length of the reference                *)
(*   Cell    one step of the driver: its pieces, the coefficients, the     *)
(*           states of the reference in it, the end of the reference run   *)
(*           cell by cell, the coarse Euler-Maruyama state, the driver's   *)
(*           state.  The pieces are silent steps.                          *)
(***************************************************************************)
EXTENDS Pathwise, TraceBase

F == RDiv(H.delta, RInt(H.n))
D == Len(H.x0)
Grid(ts, len, h) == Len(ts) = len + 1 /\ \A i \in 1..(len + 1) :
                        NearS(ts[i], RMul(RInt(i - 1), h), Tol, RMul(RInt(len), h))
Start == /\ Is("Start")
         /\ Consume(Chk("Times", Grid(Ev.ts, H.N, H.delta)) \cup Chk("FineTimes", Grid(Ev.fts, H.N * H.n, F))
                    \cup Chk("CoarseTimes", Grid(Ev.cts, H.N, H.delta))
                    \cup Chk("Length", Ev.len = H.N * H.n + 1 /\ Ev.clen = H.N + 1)
                    \cup Chk("Init", VNear(Ev.first, H.x0, R0)),
                    [k |-> 0, j |-> 0, p |-> Empty(H.m), y |-> H.x0, yc |-> H.x0, v |-> {}])
WellFormed == /\ IsMat(Ev.inc, H.n, H.m) /\ MFinite(Ev.inc) /\ IsMat(Ev.fine, H.n, D) /\ MFinite(Ev.fine)
              /\ (H.src = "fine" => IsMat(Ev.hh, H.n, H.m) /\ MFinite(Ev.hh))
              /\ IsVec(Ev.last, D) /\ IsVec(Ev.coarse, D) /\ IsVec(Ev.x, D) /\ VFinite(Ev.x)
Malformed == Is("Cell") /\ s.j = 0 /\ ~WellFormed /\ Consume({"Shape"}, s)
PieceStep == /\ Is("Cell") /\ s.j < H.n /\ WellFormed
             /\ LET v == Ev.inc[s.j + 1]
                    w == PieceInc(H.src, F, v)
                    e == FineStep(H.b, H.sg, s.y, s.k, s.j, H.delta, F, w)
                IN  Silent([s EXCEPT !.j = @ + 1, !.y = Ev.fine[s.j + 1],
                                     !.p = AddPiece(@, F, w, PieceArea(H.src, v, IF H.src = "fine" THEN Ev.hh[s.j + 1] ELSE v)),
                                     !.v = @ \cup Chk("Reference", VNear(Ev.fine[s.j + 1], e, Tol))])
Cell == /\ Is("Cell") /\ s.j = H.n /\ WellFormed
        /\ Consume(s.v \cup Chk("Increment", VNear(Ev.c[1], s.p.w, Tol))
                   \cup Chk("Area", VNear(Ev.c[2], VScale(Sqrt6, AreaOf(s.p)), Tol))
                   \cup Chk("CellByCell", VNear(Ev.last, s.y, Tol))
                   \cup Chk("Coarse", VNear(Ev.coarse, CoarseStep(H.b, H.sg, s.yc, s.k, H.delta, s.p.w), Tol))
                   \cup Chk("SamePath", H.additive => VNear(Ev.x, s.y, Tol)),
                   [s EXCEPT !.k = @ + 1, !.j = 0, !.p = Empty(H.m), !.yc = Ev.coarse, !.v = {}])

Init == tr \in 1..Len(Traces) /\ l = 1 /\ s = [j |-> 0] /\ bad = {}
Next == l <= Len(T.ev) /\ (Start \/ Malformed \/ PieceStep \/ Cell \/ Raised)
Spec == Init /\ [][Next]_tvars
=============================================================================
