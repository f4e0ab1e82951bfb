----------------------------- MODULE PlaneIntersection -----------------------------
(* Intersections of trajectories with planes (property C23).  A trajectory is a sequence of samples <<position, velocity>> of integers; side of a sample
   is the number n . (p0 - p).  The intersection is the interpolation at the last change of sides.  A sample on the plane may be
   counted with either side (the same for all samples). *)
EXTENDS Geo, Json
CONSTANTS MaxLen, SideRange, Coord, Emit
VARIABLES side, pos, n, p0, w
vars == <<side, pos, n, p0, w>>

Positive(k, zero) == k > 0 \/ (k = 0 /\ zero)
Changes(s, zero) == {i \in 1..(Len(s) - 1) : Positive(s[i], zero) # Positive(s[i + 1], zero)}
LastChange(s, zero) == IF Changes(s, zero) = {} THEN 0 ELSE CHOOSE i \in Changes(s, zero) : \A j \in Changes(s, zero) : j <= i
Allowed(s) == {LastChange(s, TRUE), LastChange(s, FALSE)}

(* The scan of the program, backwards *)
RECURSIVE Scan(_, _, _)
Scan(s, i, zero) == IF i = 0 THEN 0 ELSE IF Positive(s[i], zero) # Positive(s[i + 1], zero) THEN i ELSE Scan(s, i - 1, zero)
Seqs == UNION {[1..k -> SideRange] : k \in 2..MaxLen}
Init == side \in Seqs /\ pos = 0 /\ n = 0 /\ p0 = 0 /\ w = 0
ScanIsLast == \A z \in BOOLEAN : Scan(side, Len(side) - 1, z) = LastChange(side, z)
FoundWhenCrossed == (\E i \in DOMAIN side : side[i] > 0) /\ (\E i \in DOMAIN side : side[i] < 0) => 0 \notin Allowed(side)
NoneWhenOneSided == (\A i \in DOMAIN side : side[i] > 0) \/ (\A i \in DOMAIN side : side[i] < 0) => Allowed(side) = {0}
FlipKeeps == Allowed([i \in DOMAIN side |-> -side[i]]) = Allowed(side)
ScaleKeeps == Allowed([i \in DOMAIN side |-> 3 * side[i]]) = Allowed(side)
UniqueOffPlane == (\A i \in DOMAIN side : side[i] # 0) => Cardinality(Allowed(side)) = 1
(* The interpolated point has side zero: (k_i k_{i+1} - k_{i+1} k_i) / (k_i - k_{i+1}), with weights of [0, 1] *)
OnPlane == \A i \in Allowed(side) \ {0} : LET a == side[i] b == side[i + 1] IN a # b /\ a * b - b * a = 0 /\ ((a >= 0 /\ -b >= 0) \/ (a <= 0 /\ -b <= 0))

---------------------------------------------------------------------------------
Coords == -Coord..Coord
RV(i) == <<RandomElement(Coords), RandomElement(Coords), RandomElement(Coords)>>
InitSim == side = 0 /\ pos = <<>> /\ n = Zero /\ p0 = Zero /\ w = Zero
Plane == n = Zero /\ \E m \in {IF RandomElement(1..2) = 1 THEN VScale(RandomElement({-3, -1, 1, 2}), Unit(RandomElement(Axis))) ELSE RV(1)}, q \in {RV(2)}, u \in {RV(3)} :
            /\ n' = m /\ p0' = q /\ w' = Cross(m, u) /\ UNCHANGED <<side, pos>>
Sample == n # Zero /\ \E v \in {RV(2)}, u \in {RV(3)} :
            (* now and then right on the plane, or near the previous sample *)
            \E p \in {IF RandomElement(1..6) = 1 THEN VAdd(p0, VScale(RandomElement(-2..2), Cross(n, v))) ELSE v} : pos' = Append(pos, p \o u) /\ UNCHANGED <<side, n, p0, w>>
NextSim == IF n = Zero THEN Plane ELSE Len(pos) < MaxLen /\ Sample
Side(p) == Dot(n, VSub(p0, <<p[1], p[2], p[3]>>))
Sides == [i \in DOMAIN pos |-> Side(pos[i])]
(* As numerators over a common denominator *)
Result(i) == LET a == Side(pos[i]) b == Side(pos[i + 1]) IN [den |-> a - b, num |-> [k \in 1..6 |-> a * pos[i + 1][k] - b * pos[i][k]]]
Done == (Len(pos) >= 2 /\ (Len(pos) = MaxLen \/ RandomElement(1..3) = 1)) =>
          (~Emit \/ PrintT("B@" \o ToJson([pos |-> pos, n |-> n, p0 |-> p0, shift |-> w, sides |-> Sides, none |-> 0 \in Allowed(Sides), results |-> {Result(i) : i \in Allowed(Sides) \ {0}}])))
=====================================================================================
