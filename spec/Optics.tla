---------------------------------- MODULE Optics ----------------------------------
(* Foci and initial velocities (property C24).  A ray ends at an integer point and has integer slopes (a, b) = (vx/vz, vy/vz).  Its line crosses
   height z at (x - (zr - z) a, y - (zr - z) b).  The focus minimises the sum of squared distances in the plane of
   equal height from the focus to the lines. *)
EXTENDS Geo, Json
CONSTANTS MaxRays, Slope, Coord, Emit
VARIABLES rays, kind, vel
vars == <<rays, kind, vel>>

SumOver(S(_), k) == FoldSeq(LAMBDA a, b : a + b, 0, [i \in 1..k |-> S(i)])
N == Len(rays)
A(i) == rays[i].a
B(i) == rays[i].b
(* Where the line is at height zero *)
X(i) == rays[i].p[1] - rays[i].p[3] * A(i)
Y(i) == rays[i].p[2] - rays[i].p[3] * B(i)
SA == SumOver(A, N)
SB == SumOver(B, N)
SX == SumOver(X, N)
SY == SumOver(Y, N)
Den == N * SumOver(LAMBDA i : A(i) * A(i) + B(i) * B(i), N) - SA * SA - SB * SB
Zn == -(N * SumOver(LAMBDA i : A(i) * X(i) + B(i) * Y(i), N) - SA * SX - SB * SY)
(* The focus is (SA Zn + SX Den, SB Zn + SY Den, N Zn) / (N Den) *)
Focus == <<SA * Zn + SX * Den, SB * Zn + SY * Den, N * Zn>>
(* Half the gradient of the sum of squares, times N Den, vanishes *)
Residual(i) == <<Focus[1] - A(i) * Focus[3] - X(i) * N * Den, Focus[2] - B(i) * Focus[3] - Y(i) * N * Den>>
Stationary == Den # 0 => /\ SumOver(LAMBDA i : Residual(i)[1], N) = 0 /\ SumOver(LAMBDA i : Residual(i)[2], N) = 0
                         /\ SumOver(LAMBDA i : A(i) * Residual(i)[1] + B(i) * Residual(i)[2], N) = 0
Definite == Den >= 0 /\ (Den = 0 <=> \A i \in 1..N : A(i) = A(1) /\ B(i) = B(1))
(* Rays through one point: the first ray defines the point f + t * direction, others through it *)
Through(f) == \A i \in 1..N : X(i) = f[1] - f[3] * A(i) /\ Y(i) = f[2] - f[3] * B(i)
ExactFocus == \A f \in (-Coord..Coord) \X (-Coord..Coord) \X (-Coord..Coord) : Through(f) /\ Den # 0 => Focus = VScale(N * Den, f)
(* Stretching every ray sideways stretches the focus: paraxial bundles are as well defined as steep ones *)
FocusOf(rs) == LET n == Len(rs)
                   a(i) == rs[i].a
                   b(i) == rs[i].b
                   x(i) == rs[i].p[1] - rs[i].p[3] * rs[i].a
                   y(i) == rs[i].p[2] - rs[i].p[3] * rs[i].b
                   den == n * SumOver(LAMBDA i : a(i) * a(i) + b(i) * b(i), n) - SumOver(a, n) * SumOver(a, n) - SumOver(b, n) * SumOver(b, n)
                   zn == -(n * SumOver(LAMBDA i : a(i) * x(i) + b(i) * y(i), n) - SumOver(a, n) * SumOver(x, n) - SumOver(b, n) * SumOver(y, n))
               IN [f |-> <<SumOver(a, n) * zn + SumOver(x, n) * den, SumOver(b, n) * zn + SumOver(y, n) * den, n * zn>>, d |-> n * den]
StretchRay(r, k) == [r EXCEPT !.a = k * r.a, !.b = k * r.b, !.p = <<k * r.p[1], k * r.p[2], r.p[3]>>]
Stretch == LET s == FocusOf([i \in 1..N |-> StretchRay(rays[i], 3)])
           IN s.d = 9 * N * Den /\ s.f = <<27 * Focus[1], 27 * Focus[2], 9 * Focus[3]>>
OneRay == [p : (-Coord..Coord) \X {0} \X {0, 1}, a : -Slope..Slope, b : 0..1]
Init == rays \in UNION {[1..k -> OneRay] : k \in 2..MaxRays} /\ kind = "" /\ vel = 0

---------------------------------------------------------------------------------
R(S) == RandomElement(S)
InitSim == rays = <<>> /\ kind = "" /\ vel = <<>>
Choose == kind = "" /\ kind' = R({"point", "bundle", "parallel"}) /\ vel' = <<R(-Coord..Coord), R(-Coord..Coord), R(-Coord..Coord)>> /\ UNCHANGED rays
(* In front of, behind or in the point; with any sign and size of the velocity *)
Ray == \E a \in {IF kind = "parallel" /\ N > 0 THEN A(1) ELSE R(-Slope..Slope)}, b \in {IF kind = "parallel" /\ N > 0 THEN B(1) ELSE R(-Slope..Slope)}, k \in {R(-5..5)} :
         \E p \in {IF kind = "point" THEN VAdd(vel, <<k * a, k * b, k>>) ELSE <<R(-Coord..Coord), R(-Coord..Coord), R(-Coord..Coord)>>} :
            rays' = Append(rays, [a |-> a, b |-> b, p |-> p, vz |-> R({-3, -1, 1, 2, 5}), before |-> R(0..3)]) /\ UNCHANGED <<kind, vel>>
NextSim == IF kind = "" THEN Choose ELSE N < MaxRays /\ Ray
Done == (N >= 2 /\ Den # 0 /\ (N = MaxRays \/ R(1..2) = 1)) => (~Emit \/ PrintT("B@" \o ToJson([kind |-> kind, at |-> vel, rays |-> rays, num |-> Focus, den |-> N * Den])))

(* Directions with rational sines and cosines: <<3, 4, 5>> is the angle with sine 3/5 and cosine 4/5 *)
Triples == {<<0, 1, 1>>, <<1, 0, 1>>, <<0, -1, 1>>, <<-1, 0, 1>>, <<3, 4, 5>>, <<-3, 4, 5>>, <<4, -3, 5>>, <<-4, -3, 5>>, <<5, 12, 13>>, <<-12, 5, 13>>, <<8, -15, 17>>, <<7, 24, 25>>}
UnitCircle == \A t \in Triples : t[1] * t[1] + t[2] * t[2] = t[3] * t[3]
(* theta from the z axis, phi around it from the x axis towards the y axis *)
Spherical(t, f) == [num |-> <<t[1] * f[2], t[1] * f[1], t[2] * f[3]>>, den |-> t[3] * f[3]]
XZ(t, down) == [num |-> <<t[1], 0, IF down THEN -t[2] ELSE t[2]>>, den |-> t[3]]
UnitLength == \A t \in Triples, f \in Triples : LET s == Spherical(t, f) IN Dot(s.num, s.num) = s.den * s.den
InitVel == \E t \in Triples, f \in Triples, m \in {1, 3, -2} : vel = [t |-> t, f |-> f, m |-> m] /\ rays = <<>> /\ kind = "velocity"
VelDone == ~Emit \/ PrintT("B@" \o ToJson([t |-> vel.t, f |-> vel.f, m |-> vel.m, sph |-> Spherical(vel.t, vel.f), down |-> XZ(vel.t, TRUE), up |-> XZ(vel.t, FALSE)]))
=====================================================================================
