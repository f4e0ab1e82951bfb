---------------------------------- MODULE Motion ----------------------------------
(* The equations of motion of an electron (property C21).  Energies are in eV, so that the kinetic energy gains what the
   potential rises.  Design: an electron in a uniform field E starting with energy U at right angles follows the parabola
   4 U z = E x^2, which is the law of the exact integer stepping below (z gains vz, vz gains g, x gains vx per step, with
   2 vx^2 the fourfold energy), keeps the energy and can be reversed.  Flights of the real tracer are validated against these laws and
   against single steps computed independently, entry by entry. *)
EXTENDS Geo, Json
CONSTANTS MaxSteps, Fields, Speeds, TraceMode, Kinds, Emit, Flights
VARIABLES g, x, z, vx, vz, k, case, tr, n
vars == <<g, x, z, vx, vz, k, case, tr, n>>

(* Exact stepping: positions are doubled such that the half step is an integer.  z2 = 2 z *)
Init == g \in Fields /\ vx \in Speeds /\ x = 0 /\ z = 0 /\ vz = 0 /\ k = 0 /\ case = <<>> /\ tr = 0 /\ n = 0
Forward == k < MaxSteps /\ x' = x + vx /\ z' = z + 2 * vz + g /\ vz' = vz + g /\ k' = k + 1 /\ UNCHANGED <<g, vx, case, tr, n>>
Turn == k > 0 /\ vx' = -vx /\ vz' = -vz /\ k' = 0 - k /\ UNCHANGED <<g, x, z, case, tr, n>>
Back == k < 0 /\ x' = x + vx /\ z' = z + 2 * vz + g /\ vz' = vz + g /\ k' = k + 1 /\ UNCHANGED <<g, vx, case, tr, n>>
Next == Forward \/ Turn \/ Back
(* 4 U z = E x^2 with U = m vx^2 / 2 and E = m g: z = g x^2 / (2 vx^2) *)
Parabola == k >= 0 => z * vx * vx = g * x * x
EnergyKept == vz * vz = g * z                                       \* vz^2 / 2 = g z / 2 with the doubled z
Returns == k = 0 /\ vx < 0 => x = 0 /\ z = 0 /\ vz = 0
(* Flights to make *)
Dirs == {<<0, 0, 1>>, <<0, 0, -1>>, <<1, 0, 5>>, <<1, -2, -9>>, <<3, 4, 12>>, <<-2, 1, 2>>, <<1, 1, 0>>, <<1, -2, 50000000>>, <<-90000000, 1, 3>>}
Random(S) == RandomElement(S)
Flight == Len(case) < Flights /\ \E f \in {[kind |-> RandomElement(Kinds), dir |-> RandomElement(Dirs), eV |-> RandomElement({30, 100, 250, 1000, 8000}), atol |-> RandomElement({6, 8, 10, 11}), x |-> RandomElement(-6..6), y |-> RandomElement(-6..6), z |-> RandomElement(-40..40), strong |-> RandomElement({1, 10, 60})]} :
    case' = Append(case, f) /\ UNCHANGED <<g, x, z, vx, vz, k, tr, n>>
InitSim == g = 1 /\ vx = 1 /\ x = 0 /\ z = 0 /\ vz = 0 /\ k = 0 /\ case = <<>> /\ tr = 0 /\ n = 0
Done == Len(case) = Flights => (~Emit \/ PrintT("B@" \o ToJson([flights |-> case])))

---------------------------------------------------------------------------------
Traces == JsonDeserialize("traces.json")
Rec == Traces[tr]
Ev == Rec.ev
TraceInit == tr \in DOMAIN Traces /\ n = 0 /\ g = 0 /\ x = 0 /\ z = 0 /\ vx = 0 /\ vz = 0 /\ k = 0 /\ case = 0
TraceNext == n < Len(Ev) /\ n' = n + 1 /\ UNCHANGED <<g, x, z, vx, vz, k, case, tr>>
Is(w) == TraceMode /\ n > 0 /\ Rec.what = w
E == Ev[n]
(* Kinetic energies and potentials in millionths of the initial energy *)
StartEnergy == Is("flight") /\ n = 1 => Abs(E.kin - 1000000) <= 1
(* Components of the initial direction in proportion to those that were asked for, in units of 10^-15 *)
StartDirection == Is("flight") /\ n = 1 => E.dir <= 2000
Energy == Is("flight") /\ Rec.electric => Abs((E.kin - E.pot) - (Ev[1].kin - Ev[1].pot)) <= Rec.tol
SpeedConstant == Is("flight") /\ ~Rec.electric => Abs(E.kin - Ev[1].kin) <= Rec.tol
(* The state after a step, compared with an independent integration of that step from the state before it, as percentage of the
   tolerance that was asked for; length of the step in thousandths of the largest *)
OneStep == Is("flight") /\ n > 1 => E.pos <= 100 /\ E.vel <= 100
StepLimit == Is("flight") /\ n > 1 => E.step <= 1001
(* Uniform fields: x (along the initial velocity), z (along the force), time and velocities, in thousandths of a unit; time in
   units in which the initial speed is one.  U and E are the energy and the field *)
UniformElectric == Is("electric") => /\ Abs(4 * Rec.u * E.z - Rec.e * ((E.x * E.x) \div 1000)) <= 4 * Rec.u * Rec.tol
                                     /\ Abs(E.x - E.t) <= Rec.tol
                                     /\ Abs(2 * Rec.u * E.vz - Rec.e * E.t) <= 2 * Rec.u * Rec.tol /\ Abs(E.vx - 1000) <= Rec.tol
(* In a uniform magnetic field: distance from the centre of the orbit stays the radius, the advance along the field is
   proportional to the time, and the angle (in thousandths of a radian) to the time divided by the radius *)
UniformMagnetic == Is("magnetic") => /\ Abs(E.r - Rec.radius) <= Rec.tol /\ Abs(1000 * E.along - Rec.valong * E.t) <= 1000 * Rec.tol
                                     /\ Abs(E.angle - Rec.omega * (E.t \div 1000) - (Rec.omega * (E.t % 1000)) \div 1000) <= Rec.tol
Agree == Is("agree") => \A i \in DOMAIN E.a : Abs(E.a[i] - E.b[i]) <= E.tol
=====================================================================================
