------------------------------- MODULE AxialInterp -------------------------------
(* Axial interpolation (property C19).  State: a scene in radial symmetry, an interval of the axis divided by N samples and
   a sequence of probes.  Positions along the axis are ticks: M ticks between two samples, sample i (from 0) at tick i M.
   Distances from the axis are percent of the smallest radius R of the scene.  The specification decides from the ticks
   what must hold at a probe: zero outside, exact at samples on the axis, close in between and nearby, continuous and
   symmetric everywhere, and the field is minus the gradient of the potential. *)
EXTENDS Scenes, Json
CONSTANTS Kinds, Most, Vals, M, MaxN, NProbes, TraceMode, Emit
VARIABLES scene, count, probes, tr, ev
vars == <<scene, count, probes, tr, ev>>

End(k) == (k - 1) * M
InRange(t, k) == 0 <= t /\ t <= End(k)
(* The interval used for a position: by division, kept within the table *)
Index(t, k) == LET i == IF t < 0 THEN 0 ELSE t \div M IN IF i > k - 2 THEN k - 2 ELSE i
IndexCovers == \A t \in 0..End(count) : LET i == Index(t, count) IN 0 <= i /\ i <= count - 2 /\ i * M <= t /\ t <= (i + 1) * M
AllIntervals == \A i \in 0..(count - 2) : \E t \in 0..End(count) : Index(t, count) = i

Ticks(k) == {-3 * M, -1, 0, 1, End(k) - 1, End(k), End(k) + 1, End(k) + 2 * M}
Position(k) == IF RandomElement(1..3) = 1 THEN RandomElement(Ticks(k)) ELSE IF RandomElement(1..3) = 1 THEN M * RandomElement(0..(k - 1)) ELSE RandomElement(0..End(k))
Blank == scene.parts = <<>>
NoBall(s) == \A i \in DOMAIN s.parts : s.parts[i].sh # "ball"
Start == \E s \in {RandomScene("radial", Kinds, 1, Most, Vals)} : NoBall(s) /\ scene' = s /\ count' = RandomElement(2..MaxN) /\ UNCHANGED <<probes, tr, ev>>
Probe == Len(probes) < NProbes /\ (\E t \in {Position(count)}, r \in {RandomElement(1..8)} : probes' = Append(probes, [t |-> t, r |-> <<0, 0, 5, 10, 20, 30, 60, 150>>[r]])) /\ UNCHANGED <<scene, count, tr, ev>>
InitSim == scene = [sym |-> "radial", names |-> <<>>, parts |-> <<>>] /\ count = 2 /\ probes = <<>> /\ tr = 0 /\ ev = 0
NextSim == IF Blank THEN Start ELSE Probe
Init == scene = 0 /\ count \in 2..MaxN /\ probes = <<>> /\ tr = 0 /\ ev = 0
Done == Len(probes) = NProbes => (~Emit \/ PrintT("B@" \o ToJson([scene |-> scene, n |-> count, lo |-> RandomElement({-5, -3, 0, 1, 4}), len |-> RandomElement({2, 5, 9, 13}), den |-> RandomElement({1, 7, 10}), probes |-> probes])))

---------------------------------------------------------------------------------
(* Traces: every probe with <<potential, radial field, axial field>> of the interpolation (got), of the original (want), at the
   neighbouring floating point numbers below and above, and at the same place turned around the axis, in units of 1e-8 of
   the largest; the gradient in units of 1e-6 of the local field *)
Traces == JsonDeserialize("traces.json")
Rec == Traces[tr]
Ev == Rec.ev
TraceInit == tr \in DOMAIN Traces /\ ev = 0 /\ scene = 0 /\ count = 0 /\ probes = 0
TraceNext == ev < Len(Ev) /\ ev' = ev + 1 /\ UNCHANGED <<scene, count, probes, tr>>
Is == TraceMode /\ ev > 0
P == Ev[ev]
Near(a, b, tol) == \A i \in 1..3 : Abs(a[i] - b[i]) <= tol
RECURSIVE Percent(_, _, _)
(* s * (x/100)^k, no more than a billion *)
Percent(s, x, k) == IF k = 0 \/ s = 0 THEN s ELSE IF s > 2000000000 \div (x + 1) THEN 1000000000 ELSE Percent((s * x) \div 100, x, k - 1)
Zero3 == <<0, 0, 0>>
ZeroOutside == Is /\ ~InRange(P.t, Rec.n) => P.got = Zero3 /\ P.turned = Zero3
AtSamples == Is /\ InRange(P.t, Rec.n) /\ P.t % M = 0 /\ P.r = 0 => Near(P.got, P.want, 3)
(* In between the error is of sixth order in the distance of the samples, off the axis of tenth order in the radius *)
Nearby == Is /\ InRange(P.t, Rec.n) /\ P.r <= 30 /\ Rec.d <= 60 => Near(P.got, P.want, 30 + Percent(20000000, Rec.d, 6) + Percent(1000000000, P.r, 10))
Continuous == Is /\ InRange(P.t, Rec.n) => (P.t > 0 => Near(P.got, P.below, P.slack)) /\ (P.t < End(Rec.n) => Near(P.got, P.above, P.slack))
Symmetric == Is => Near(P.got, P.turned, P.slack)
(* Minus the radial slope of the potential is the radial field; at samples the divergence and axial slope vanish up to the
   derivatives that are available *)
Gradient == Is /\ InRange(P.t, Rec.n) /\ P.slope # <<>> => Abs(P.slope[1] - P.slope[2]) <= 40
AxialGradient == Is /\ P.axial # <<>> => P.t % M = 0 /\ Abs(P.axial[1] - P.axial[2]) <= 2000
(* At samples the interpolation is the radial power series of the derivatives there.  T[k + 1] is r^k times the k-th derivative;
   the values are the potential and r times the components of the field, in the same unit *)
Series == Is /\ P.terms # <<>> => LET T == P.terms v == P.series IN
    /\ Abs(v[1] - (T[1] - T[3] \div 4 + T[5] \div 64 - T[7] \div 2304 + T[9] \div 147456)) <= 8
    /\ Abs(v[2] - (T[3] \div 2 - T[5] \div 16 + T[7] \div 384 - T[9] \div 18432)) <= 8
    /\ Abs(v[3] - (T[4] \div 4 - T[2] - T[6] \div 64 + T[8] \div 2304)) <= 8
(* The derivatives on the axis, each the slope of the one before *)
Derivatives == Is /\ P.derivs # <<>> => \A i \in DOMAIN P.derivs : Abs(P.derivs[i][1] - P.derivs[i][2]) <= 2000
=================================================================================
