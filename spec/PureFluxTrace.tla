-------------------------- MODULE PureFluxTrace ---------------------------
(* Solved problems without imposed potential: values in units of 1e-9 of the range (phi, pot), bit patterns (fluxes). *)
EXTENDS TraceBase
vars == <<l>>
Scenario == IsOp("scenario")
Fixed(e) == Abs(e.phi[1] - e.pot[1]) <= e.rtol
Differences(e) == \A i \in 1..e.n : Abs((e.phi[i] - e.phi[1]) - (e.pot[i] - e.pot[1])) <= e.tol
Copies(e) == \A i \in 1..e.n : \A j \in ToSet(e.dbl[i]) : Abs(e.phi[i] - e.phi[j]) <= e.rtol
Flux(e) == \A i \in 1..e.n : e.dphi[i] = e.tmp[i] /\ e.dflux[i] <= 10
Solved == IsOp("solved") /\ Val(Ev.have = 0) /\ Val(Fixed(Ev)) /\ Val(Differences(Ev)) /\ Val(Copies(Ev)) /\ Val(Flux(Ev))
TraceInit == l = 1
TraceNext == Scenario \/ Solved
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
