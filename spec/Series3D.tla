--------------------------------- MODULE Series3D ---------------------------------
(* Expansion around the optical axis without symmetry (property C27).  On every interval of the axis the potential is a
   polynomial: a sum of terms a * z^k * (x^2+y^2)^nu * Re or Im (x+iy)^m, with z from the start of the interval.  Everything
   is exact in integers: the potential and its gradient at lattice points, and for point charges on the lattice the ratios
   of the coefficients.
     Design  laws of the terms (Euler, turning around the axis, Laplace by exact second differences), exhaustively;
     Gen     random tables of terms with probes, and random charges with probes near the axis;
     Trace   measurements of the real code. *)
EXTENDS Geo, Json
CONSTANTS NuMax, MMax, Size, Emit, TraceMode, MaxTerms
VARIABLES terms, at, prob, tr, n
vars == <<terms, at, prob, tr, n>>

RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
(* <<Re, Im>> of (x + iy)^m *)
RECURSIVE CPow(_, _, _)
CPow(x, y, m) == IF m = 0 THEN <<1, 0>> ELSE LET c == CPow(x, y, m - 1) IN <<x * c[1] - y * c[2], x * c[2] + y * c[1]>>
H(t, x, y) == CPow(x, y, t.m)[t.c]
(* derivatives of Re, Im (x+iy)^m *)
HX(t, x, y) == IF t.m = 0 THEN 0 ELSE t.m * CPow(x, y, t.m - 1)[t.c]
HY(t, x, y) == IF t.m = 0 THEN 0 ELSE LET c == CPow(x, y, t.m - 1) IN t.m * (IF t.c = 1 THEN -c[2] ELSE c[1])
R2(x, y) == x * x + y * y
Value(t, x, y, z) == t.a * Pow(z, t.k) * Pow(R2(x, y), t.nu) * H(t, x, y)
DRad(t, w, x, y) == IF t.nu = 0 THEN 0 ELSE 2 * t.nu * w * Pow(R2(x, y), t.nu - 1)
DX(t, x, y, z) == t.a * Pow(z, t.k) * (DRad(t, x, x, y) * H(t, x, y) + Pow(R2(x, y), t.nu) * HX(t, x, y))
DY(t, x, y, z) == t.a * Pow(z, t.k) * (DRad(t, y, x, y) * H(t, x, y) + Pow(R2(x, y), t.nu) * HY(t, x, y))
DZ(t, x, y, z) == IF t.k = 0 THEN 0 ELSE t.a * t.k * Pow(z, t.k - 1) * Pow(R2(x, y), t.nu) * H(t, x, y)
SumOver(f(_, _, _, _), ts, x, y, z) == FoldSeq(LAMBDA t, s : s + f(t, x, y, z), 0, ts)

(* Design: state is one term, with its companion that makes it harmonic up to the second order in z, and a lattice point *)
AllTerms == [c : {1, 2}, nu : 0..NuMax, m : 0..MMax, k : 0..3, a : {1, -2}]
Grid == (-Size..Size) \X (-Size..Size) \X (0..Size)
Init == /\ \E t \in AllTerms : terms = <<t>>
        /\ at \in Grid /\ prob = 0 /\ tr = 0 /\ n = 0
Companion == /\ Len(terms) = 1 /\ terms[1].nu = 0 /\ terms[1].k >= 2
             /\ terms' = LET t == terms[1] IN <<[t EXCEPT !.a = 4 * (t.m + 1) * @], [t EXCEPT !.nu = 1, !.k = t.k - 2, !.a = -(t.k * (t.k - 1)) * @]>>
             /\ UNCHANGED <<at, prob, tr, n>>
Next == Companion
X == at[1]  Y == at[2]  Z == at[3]
V(x, y, z) == SumOver(Value, terms, x, y, z)
Euler == \A i \in DOMAIN terms : LET t == terms[i] IN X * DX(t, X, Y, Z) + Y * DY(t, X, Y, Z) = (t.m + 2 * t.nu) * Value(t, X, Y, Z)
(* turning around the axis turns Re into Im *)
Turning == \A i \in DOMAIN terms : LET t == terms[i] IN
    X * DY(t, X, Y, Z) - Y * DX(t, X, Y, Z) = (IF t.c = 1 THEN -1 ELSE 1) * t.m * Value([t EXCEPT !.c = 3 - @], X, Y, Z)
AlongAxis == \A i \in DOMAIN terms : LET t == terms[i] IN Z * DZ(t, X, Y, Z) = t.k * Value(t, X, Y, Z)
Quarter4 == \A i \in DOMAIN terms : LET t == terms[i] IN LET q == <<<<1, 0>>, <<0, -1>>, <<-1, 0>>, <<0, 1>>>>[1 + (t.m % 4)]
            \* at (y, -x), i.e. turned back a quarter: H turns by m quarters
            IN Value(t, Y, -X, Z) = LET o == [t EXCEPT !.c = 3 - @] IN q[1] * Value(t, X, Y, Z) - (IF t.c = 1 THEN 1 ELSE -1) * q[2] * Value(o, X, Y, Z)
(* second differences of polynomials up to the third degree are exact *)
Degree == Max({t.m + 2 * t.nu : t \in ToSet(terms)})
Second(f(_), u) == f(u + 1) + f(u - 1) - 2 * f(u)
Laplace == Degree <= 3 /\ (Len(terms) = 2 \/ (terms[1].nu = 0 /\ terms[1].k <= 1)) =>
    Second(LAMBDA u : V(u, Y, Z), X) + Second(LAMBDA u : V(X, u, Z), Y) + Second(LAMBDA u : V(X, Y, u), Z) = 0

---------------------------------------------------------------------------------
(* Random tables: N intervals of length dz starting at z0; and random charges *)
R(S) == RandomElement(S)
Term(N) == [i |-> R(1..N), c |-> R({1, 2}), nu |-> R({0, 0, 1, 2, 3}), m |-> R(0..7), k |-> R(0..3), a |-> R({-3, -1, 1, 2})]
Deg(t) == t.m + 2 * t.nu
Range2(ts) == IF \E i \in DOMAIN ts : Deg(ts[i]) > 8 THEN 1 ELSE 2
Place(N, dz, w) == [x |-> R(-w..w), y |-> R(-w..w), i |-> R(1..N), z |-> R(0..dz), out |-> R({0, 0, 0, 0, 0, 0, -1, 1})]
NewTable == /\ at = 0
            /\ \E N \in {R(1..5)}, dz \in {R(1..3)}, z0 \in {R(-6..6)}, cnt \in {R(1..6)} :
               \E ts \in {TLCEval([j \in 1..cnt |-> TLCEval(Term(N))])} :
                 prob' = [what |-> "table", N |-> N, dz |-> dz, z0 |-> z0, ts |-> ts, places |-> TLCEval([j \in 1..12 |-> TLCEval(Place(N, dz, Range2(ts)))])]
            /\ at' = 1 /\ UNCHANGED <<terms, tr, n>>
(* Charges between 20 and 40 away from the piece of the axis from -4 to 4; one of them can be described exactly *)
Spots == {<<20, 0>>, <<0, -25>>, <<15, 20>>, <<-24, 7>>, <<20, -15>>, <<-21, -20>>, <<12, 16>>, <<-30, 0>>, <<-7, 24>>, <<28, 21>>}
NewCharges == /\ at = 0
              /\ \E cnt \in {R({1, 1, 2, 5, 17})} :
                   prob' = [what |-> "charges", q |-> TLCEval([j \in 1..cnt |-> TLCEval([at |-> R(Spots) \o <<R({-21, -15, -8, 0, 0, 15, 20, 7})>>, q |-> R({-3, -2, -1, 1, 2, 5})])]),
                            places |-> TLCEval([j \in 1..10 |-> <<R(-4..4), R(-4..4), R(-4..4)>>])]
              /\ at' = 1 /\ UNCHANGED <<terms, tr, n>>
InitSim == terms = 0 /\ at = 0 /\ prob = 0 /\ tr = 0 /\ n = 0
NextSim == NewTable \/ NewTable \/ NewCharges
Done == at = 1 => (~Emit \/ PrintT("B@" \o ToJson(prob)))

---------------------------------------------------------------------------------
(* Measurements.  Numbers are given as a whole part and thousandths.  table: potential and field at a place;
   series: potential from the series and directly, in ten millionths of the sum of |q| / distance, with the ratio of the
   distances squared; ratio: consecutive coefficients of one charge; turn: their phases; recur: second derivative of one
   coefficient against the next, in millionths of the larger.  ratio is in millionths of rho / R^2 *)
Traces == JsonDeserialize("traces.json")
Rec == Traces[tr]
Ev == Rec.ev
E == Ev[n]
TraceInit == tr \in DOMAIN Traces /\ n = 0 /\ terms = 0 /\ at = 0 /\ prob = 0
TraceNext == n < Len(Ev) /\ n' = n + 1 /\ UNCHANGED <<terms, at, prob, tr>>
Is(k) == TraceMode /\ n > 0 /\ E.k = k
Exactly(m, v) == m[1] = v /\ Abs(m[2]) <= 1
(* Where a place belongs: the upper of two intervals, except at the end *)
Interval(p) == IF p.z = Rec.dz /\ p.i < Rec.N THEN p.i + 1 ELSE p.i
Local(p) == IF p.z = Rec.dz /\ p.i < Rec.N THEN 0 ELSE p.z
Here(p) == SelectSeq(Rec.ts, LAMBDA t : t.i = Interval(p))
TablePotential == Is("table") => Exactly(E.v, IF E.p.out # 0 THEN 0 ELSE SumOver(Value, Here(E.p), E.p.x, E.p.y, Local(E.p)))
TableField == Is("table") => IF E.p.out # 0 THEN \A j \in Axis : E.f[j] = <<0, 0>>
    ELSE /\ Exactly(E.f[1], -SumOver(DX, Here(E.p), E.p.x, E.p.y, Local(E.p)))
         /\ Exactly(E.f[2], -SumOver(DY, Here(E.p), E.p.x, E.p.y, Local(E.p)))
         /\ Exactly(E.f[3], -SumOver(DZ, Here(E.p), E.p.x, E.p.y, Local(E.p)))
(* the terms left out are of the eighth order; r2 and R2 are the squared distances from the axis and of the nearest charge *)
Truncated(r2, big) == IF r2 = 0 \/ big \div r2 >= 100 THEN 0 ELSE 40000000 \div Pow(big \div r2, 4)
SeriesIsPotential == Is("series") => Abs(E.series - E.direct) <= 5 + Truncated(E.r2, E.R2)
(* one charge: A(0, m+1) / A(0, m) = (2m+1) / (2 (m+1)) times rho / R^2, twice that for m = 0 *)
Ratio == Is("ratio") => LET num == (2 * E.m + 1) * (IF E.m = 0 THEN 2 ELSE 1)  den == 2 * (E.m + 1)
                        IN  Abs(E.v * den - num * 1000000) <= 2 * den
Phase == Is("turn") => LET d == CPow(E.x, E.y, E.m)  l == Pow(E.len, E.m) IN E.x * E.x + E.y * E.y = E.len * E.len /\ \A j \in {1, 2} : Abs(E.v[j] * l - d[j] * 10000) <= 2 * l
Recurrence == Is("recur") => Abs(E.second + E.next) <= 3
(* Flights: single steps compared with steps computed otherwise, in percent of the tolerance *)
OneStep == Is("step") => E.pos <= 100 /\ E.vel <= 100
(* kinetic and potential energy in millionths of the initial energy *)
EnergyKept == Is("step") /\ Rec.electric => Abs((E.kin - E.pot) - (Ev[1].kin - Ev[1].pot)) <= Rec.tol
Inside == Is("step") /\ n < Len(Ev) - 1 => E.inside
=================================================================================
