------------------------------ MODULE FillTrace ------------------------------
(* Validates filled areas.  Everything is given in the frame in which the lines *)
(* are vertical.                                                                 *)
EXTENDS FillLaw, TraceLib
VARIABLE l
F == INSTANCE Fill WITH W <- 0, H <- 0, Dist <- 1, Limit <- 0, area <- {}, left <- {}, done <- <<>>, side <- 0
E == Trace[l]
Tol == 3
R == [loops |-> <<E.part.o>> \o E.part.h, lines |-> E.lines, x0 |-> E.x0, dist |-> E.dist, width |-> E.width, zig |-> E.zig,
      tol |-> Tol, ptol |-> Tol, min |-> 0]

Filled ==
    /\ E.ev = "fill"
    /\ Check(E.raw = E.raw2, "C14", E, l, "filling changes the area", [before |-> E.raw.o, after |-> E.raw2.o])
    /\ Check(E.direction = F!Direction(E.degree, E.rect, E.layer), "C14", E, l, "harness", 0)
    /\ IF E.err THEN E.dist < 1 \/ Viol("C14", E, l, "filling fails", E.msg)
       ELSE IF E.dist < 1 THEN Viol("C14", E, l, "an impossible line distance is accepted", 0)
       ELSE \A p \in Problems(R, 0, (E.x1 - E.x0) \div E.dist) : Viol("C14", E, l, p.why, p.info)
Crash == E.ev = "crash" /\ Viol("crash", E, l, E.msg, E.stack)
TInit == l = 1
TNext == l <= Len(Trace) /\ l' = l + 1 /\ (Filled \/ Crash)
TSpec == TInit /\ [][TNext]_l
=============================================================================
