---------------------------------- MODULE Energy ----------------------------------
(* Conservative fields (property C16).  A charge walks over the nodes <<a, b, k>> of a graph around the parts of a
   scene; a, b in -1..1 are the lateral positions, k counts the free planes between the slots.  The work done on it is
   minus the difference of potential; on a closed walk it is zero, or, for magnetic fields of coils, the sum over the
   coils of the current times the number of passes through the coil.  The flux out of a region is the charge inside. *)
EXTENDS Scenes, Json
CONSTANTS Kinds, Most, Vals, Len1, TraceMode, Emit
VARIABLES scene, route, tr, n
vars == <<scene, route, tr, n>>

Slots(s) == Len(s.parts)
(* The slot between planes k and k + 1 (k from 0) can be passed along the axis when its part has a hole *)
Hollow(s, k) == LET p == s.parts[k + 1] IN IF s.sym = "radial" THEN p.sh # "ball" ELSE p.sh = "annulus"
Nodes(s) == {-1, 0, 1} \X {-1, 0, 1} \X (0..Slots(s))
Edge(s, p, q) == \/ p[3] = q[3] /\ Abs(p[1] - q[1]) + Abs(p[2] - q[2]) = 1                               \* in a free plane
                 \/ p[3] = q[3] /\ Abs(p[1] - q[1]) = 1 /\ Abs(p[2] - q[2]) = 1                          \* diagonally
                 \/ /\ p[1] = q[1] /\ p[2] = q[2] /\ Abs(p[3] - q[3]) = 1                                \* along the axis
                    /\ (p[1] # 0 \/ p[2] # 0 \/ Hollow(s, Min({p[3], q[3]})))
Outside(p) == p[1] # 0 \/ p[2] # 0
(* Passes through the disc spanned by the ring in slot k (from 0), upwards counted positive *)
Pass(p, q, k) == IF Outside(p) \/ p[3] = q[3] \/ p[1] # q[1] \/ p[2] # q[2] THEN 0 ELSE IF p[3] = k /\ q[3] = k + 1 THEN 1 ELSE IF p[3] = k + 1 /\ q[3] = k THEN -1 ELSE 0
RECURSIVE Passes(_, _, _, _)
Passes(w, i, j, k) == IF i >= j THEN 0 ELSE Pass(w[i], w[i + 1], k) + Passes(w, i + 1, j, k)
SumTo(f, m) == FoldFunctionOnSet(LAMBDA a, b : a + b, 0, f, 1..m)

(* Generator and design: a potential per node and a current per slot determine the work along every edge *)
Blank == scene.parts = <<>>
Walk == Len(route) < Len1 /\ \E q \in (LET N == {q \in Nodes(scene) : Edge(scene, route[Len(route)], q)} IN IF ~Sim THEN N ELSE
            \* prefer the axis, it is the interesting part
            LET A == {q \in N : q[3] # route[Len(route)][3]} IN IF A # {} /\ RandomElement(1..3) # 1 THEN {RandomElement(A)} ELSE {RandomElement(N)}) : route' = Append(route, q) /\ UNCHANGED <<scene, tr, n>>
Choose == scene' = RandomScene(scene.sym, Kinds, 1, Most, Vals) /\ route' = <<<<RandomElement({-1, 0, 0, 1}), RandomElement({-1, 0, 0, 1}), 0>>>> /\ UNCHANGED <<tr, n>>
InitSim == scene \in {[sym |-> s, names |-> <<>>, parts |-> <<>>] : s \in {"radial", "3d"}} /\ route = <<>> /\ tr = 0 /\ n = 0
NextSim == IF Blank THEN Choose ELSE Walk
Coil == [nm |-> "a", sh |-> "coil", z |-> 0, lo |-> 1, w |-> 1, h |-> 2]
Init == scene = [sym |-> "radial", names |-> <<>>, parts |-> <<Coil>>] /\ route \in {<<p>> : p \in {<<0, 0, 0>>, <<1, 0, 0>>}} /\ tr = 0 /\ n = 0
Next == Walk
(* Design: on a closed walk the number of passes is the winding around the ring counted in the half plane as well *)
Meridian(p) == IF Outside(p) THEN 1 ELSE 0
Turn(p, q) == IF Meridian(p) = 1 /\ Meridian(q) = 1 /\ p[3] # q[3] THEN (IF p[3] < q[3] THEN -1 ELSE 1) ELSE 0
RECURSIVE Turns1(_, _, _)
Turns1(w, i, j) == IF i >= j THEN 0 ELSE Turn(w[i], w[i + 1]) + Turns1(w, i + 1, j)
Winding == Slots(scene) = 1 => \A i, j \in DOMAIN route : i < j /\ route[i] = route[j] => Passes(route, i, j, 0) = Turns1(route, i, j)
ValidWalk == \A i \in 1..(Len(route) - 1) : Edge(scene, route[i], route[i + 1])

---------------------------------------------------------------------------------
(* Traces: walks with the work and the potential, or regions with flux *)
Traces == JsonDeserialize("traces.json")
Rec == Traces[tr]
Ev == Rec.ev
NodeOf(i) == <<Ev[i].p[1], Ev[i].p[2], Ev[i].p[3]>>
TraceInit == tr \in DOMAIN Traces /\ n = 0 /\ scene = 0 /\ route = <<>>
TraceNext == n < Len(Ev) /\ n' = n + 1 /\ UNCHANGED <<scene, route, tr>>
WorkTo(i) == SumTo([k \in DOMAIN Ev |-> Ev[k].work], i)
Path == [i \in DOMAIN Ev |-> NodeOf(i)]
IsWalk == TraceMode /\ n > 0 /\ Rec.what = "walk"
IsGauss == TraceMode /\ n > 0 /\ Rec.what = "flux"
Conservative == IsWalk /\ Rec.pot => Abs(Ev[n].pot - Ev[1].pot + WorkTo(n)) <= Rec.tol
Closed == IsWalk => \A j \in 1..(n - 1) : NodeOf(j) = NodeOf(n) =>
    Abs(WorkTo(n) - WorkTo(j) - SumTo([k \in DOMAIN Rec.coils |-> Rec.coils[k] * Passes(Path, j, n, k - 1)], Len(Rec.coils))) <= Rec.tol
WalksTheGraph == IsWalk /\ n > 1 => Edge(Rec.scene, NodeOf(n - 1), NodeOf(n))
Gauss == IsGauss => Abs(Ev[n].flux - SumTo([k \in DOMAIN Rec.charges |-> IF k >= Ev[n].lo /\ k <= Ev[n].hi THEN Rec.charges[k] ELSE 0], Len(Rec.charges))) <= Rec.tol
(* Thin cylinders around the axis in the free planes, radius 10^-r: what leaves through the side enters at the ends.
   Both are divided by the cross section and are relative to the field at the ends (100000). *)
GaussThin == TraceMode /\ n > 0 /\ Rec.what = "thin" => Abs(Ev[n].side + Ev[n].ends) <= Rec.tol
(* The area of flat parts is exact: in units of pi (radial) or one, times 10000 *)
Area(p) == IF Rec.scene.sym = "radial"
           THEN CASE p.sh = "disk" -> (p.lo + p.w) * (p.lo + p.w) - p.lo * p.lo
                  [] p.sh = "tube" -> 2 * p.lo * p.h
                  [] p.sh = "ring" -> 2 * (2 * p.lo + p.w) * p.h + 2 * ((p.lo + p.w) * (p.lo + p.w) - p.lo * p.lo)
                  [] OTHER -> 0
           ELSE CASE p.sh = "plate" -> (p.lo + p.w) * (p.h + 1)
                  [] p.sh = "box" -> 2 * (2 * (p.lo + p.w) + 2 * p.h + (p.lo + p.w) * p.h)
                  [] OTHER -> 0
AreaOfParts == IsGauss => \A k \in DOMAIN Rec.areas : Area(Rec.scene.parts[k]) > 0 /\ Rec.areas[k] >= 0 => Abs(Rec.areas[k] - 10000 * Area(Rec.scene.parts[k])) <= 2
RouteDone == Len(route) = Len1 => (~Emit \/ RandomElement(1..6) # 1 \/ PrintT("B@" \o ToJson([scene |-> scene, route |-> route])))
=====================================================================================
