--------------------------- MODULE BoundaryConditions ---------------------------
(* What the solved field must satisfy at every surface (property C18).  State: the parts on the optical axis, each with
   what was assigned to it, and possibly a wall around everything.  Voltages are polynomials of the position; on closed
   electrodes they are harmonic, so the potential inside is the same polynomial.  Lengths are tenths, potentials 1/400.
   Actions build the problem; then every probe of the specification (points inside, on both sides of every material and
   sheet, at the wall and in the free space) is measured and each clause is an invariant on the recorded measurements. *)
EXTENDS Geo, Json
CONSTANTS Most, Emit, TraceMode
VARIABLES sym, parts, wall, done, tr, n
vars == <<sym, parts, wall, done, tr, n>>

(* A polynomial: coefficients (in quarters) of 1, z, 2z^2-x^2-y^2, x, y, xy, xz, yz, x^2-y^2 and x^2+y^2, around the centre
   of the slot *)
Value(c, p) == LET x == p[1] y == p[2] z == p[3] IN
    100 * c[1] + 10 * c[2] * z + c[3] * (2 * z * z - x * x - y * y) + 10 * c[4] * x + 10 * c[5] * y + c[6] * x * y + c[7] * x * z + c[8] * y * z + c[9] * (x * x - y * y) + c[10] * (x * x + y * y)
Radially(c) == \A i \in 4..9 : c[i] = 0
Harmonic(c) == c[10] = 0
Constants(c) == \A i \in 2..10 : c[i] = 0

Closed == {"ball", "torus", "block"}
Sheets == {"disk", "tube"}
Shapes(what) == CASE what \in {"current"} -> {"coil"}
                  [] what \in {"dielectric", "magnetizable"} -> IF sym = "radial" THEN Closed ELSE {"ball", "block"}
                  [] OTHER -> IF sym = "radial" THEN Closed \union Sheets ELSE {"ball", "block", "disk"}
Electric == {"fixed", "fun", "dielectric"}
Magnetic == {"potential", "current", "magnetizable"}
Sources == {"fixed", "fun", "potential", "current"}
Materials == {"dielectric", "magnetizable"}
Family(w) == IF w \in Electric THEN "electric" ELSE "magnetic"

(* Coordinates in tenths, relative to the centre of the slot (which is at z = 80 k + 40).  r: distance of the centre from the
   axis (in 3D along x), a, h: half sizes.  A ball in radial symmetry sits on the axis. *)
Random(k) == RandomElement(k)
Poly(what, sh) == CASE what \in {"fixed", "potential", "current"} -> <<Random({-12, -4, -1, 2, 4, 9}), 0, 0, 0, 0, 0, 0, 0, 0, 0>>
    [] what = "fun" -> LET s == {-4, 0, 0, 2, 3} three == IF sym = "radial" THEN {0} ELSE s IN
            <<Random(s), Random(s), Random(s), Random(three), Random(three), Random(three), Random(three), Random(three), Random(three), IF sh \in Closed THEN 0 ELSE Random(s)>>
    [] OTHER -> <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>
NewPart(what) == LET sh == TLCEval(Random(Shapes(what))) IN
    [what |-> what, sh |-> sh, r |-> CASE sh = "ball" -> (IF sym = "radial" THEN 0 ELSE Random({-20, 0, 15}))
                                      [] sh = "torus" -> Random({35, 40})
                                      [] sh = "coil" -> Random({40, 60})
                                      [] OTHER -> IF sym = "radial" THEN Random({30, 35, 40}) ELSE Random({-10, 0, 15}),
     a |-> IF sh = "coil" THEN Random({10, 15}) ELSE Random({20, 25}), h |-> Random({20, 25}), poly |-> TLCEval(Poly(what, sh)), k |-> Random({<<1, 4>>, <<1, 2>>, <<2, 1>>, <<4, 1>>, <<9, 1>>})]
Allowed(what) == ~(what = "current" /\ sym = "3d")
Limit == IF sym = "3d" THEN 2 ELSE Most
Add == ~done /\ Len(parts) < Limit /\ \E w \in Pick(Electric \union Magnetic) : Allowed(w) /\ parts' = Append(parts, NewPart(w)) /\ UNCHANGED <<sym, wall, done, tr, n>>
HasSource == \E i \in DOMAIN parts : parts[i].what \in Sources
Enclose == ~done /\ wall = "none" /\ HasSource /\ \E w \in Pick({"electric", "magnetic"}) : (\E i \in DOMAIN parts : parts[i].what \in Sources /\ Family(parts[i].what) = w) /\ wall' = w /\ UNCHANGED <<sym, parts, done, tr, n>>
Solve == ~done /\ HasSource /\ (~Sim \/ RandomElement(1..4) = 1 \/ Len(parts) = Limit) /\ done' = TRUE /\ UNCHANGED <<sym, parts, wall, tr, n>>
Init == sym \in {"radial", "3d"} /\ parts = <<>> /\ wall = "none" /\ done = FALSE /\ tr = 0 /\ n = 0
Next == Add \/ Enclose \/ Solve

(* Probes: surface points with outward normals (denominator 5), and points inside; relative to the centre of the slot *)
Dirs == IF sym = "radial" THEN {<<0, 0, 5>>, <<0, 0, -5>>, <<3, 0, 4>>, <<4, 0, -3>>, <<5, 0, 0>>, <<3, 0, -4>>} ELSE {<<5, 0, 0>>, <<-3, 0, 4>>, <<0, -4, 3>>, <<0, 0, -5>>, <<0, 3, 4>>, <<4, -3, 0>>}
Around == {<<a, 0, b>> : a, b \in {-3, 3}} \union {<<a, 0, b>> : a, b \in {-4, 4}} \union {<<5, 0, 0>>, <<-5, 0, 0>>, <<0, 0, 5>>, <<0, 0, -5>>}
Circle == {d \in {<<3, 0, 4>>, <<-4, 0, 3>>, <<4, 0, -3>>, <<-3, 0, -4>>, <<5, 0, 0>>, <<-5, 0, 0>>, <<0, 0, 5>>, <<0, 0, -5>>} : TRUE}
Centre(p) == <<p.r, 0, 0>>
Probes(p) == CASE p.sh = "ball" -> {[at |-> VAdd(Centre(p), [i \in 1..3 |-> (p.a * d[i]) \div 5]), n |-> d] : d \in Dirs}
               [] p.sh = "torus" -> {[at |-> VAdd(Centre(p), [i \in 1..3 |-> (p.a * d[i]) \div 5]), n |-> d] : d \in Circle}
               [] p.sh = "block" -> {[at |-> VAdd(Centre(p), <<p.a * d[1], 0, p.h * d[3]>>), n |-> VScale(5, d)] : d \in {<<1, 0, 0>>, <<-1, 0, 0>>, <<0, 0, 1>>, <<0, 0, -1>>}}
                                     \union (IF sym = "radial" THEN {} ELSE {[at |-> VAdd(Centre(p), <<0, p.a * s, 0>>), n |-> <<0, 5 * s, 0>>] : s \in {-1, 1}})
               [] p.sh = "disk" -> {[at |-> VAdd(Centre(p), <<s, 0, 0>>), n |-> <<0, 0, 5>>] : s \in {-5, 0, 5}}
               [] p.sh = "tube" -> {[at |-> VAdd(Centre(p), <<0, 0, s>>), n |-> <<5, 0, 0>>] : s \in {-5, 0, 5}}
               [] OTHER -> {}
Inside(p) == IF p.sh \notin Closed THEN {} ELSE {VAdd(Centre(p), <<a, 0, b>>) : a \in (IF p.sh = "ball" /\ sym = "radial" THEN {0, 8} ELSE {-8, 0, 8}), b \in {-8, 0, 8}} \union (IF sym = "radial" THEN {} ELSE {VAdd(Centre(p), <<0, s, 3>>) : s \in {-9, 9}})
OnSurface(p, x) == LET d == VSub(x, Centre(p)) IN
    CASE p.sh \in {"ball", "torus"} -> Dot(d, d) = p.a * p.a
      [] p.sh = "block" -> Max({Abs(d[1]) * p.h, Abs(d[2]) * p.h, Abs(d[3]) * p.a}) = p.a * p.h
      [] p.sh = "disk" -> d[3] = 0 /\ Abs(d[1]) < p.a
      [] p.sh = "tube" -> d[1] = 0 /\ Abs(d[3]) < p.h
      [] OTHER -> FALSE
Within(p, x) == LET d == VSub(x, Centre(p)) IN
    CASE p.sh \in {"ball", "torus"} -> 10 * Dot(d, d) < 6 * p.a * p.a
      [] p.sh = "block" -> Abs(d[1]) < p.a - 6 /\ Abs(d[2]) < p.a - 6 /\ Abs(d[3]) < p.h - 6
      [] OTHER -> FALSE
(* Design *)
ProbesOnSurface == \A i \in DOMAIN parts : \A q \in Probes(parts[i]) : OnSurface(parts[i], q.at) /\ Dot(q.n, q.n) = 25
ProbesInside == \A i \in DOMAIN parts : \A q \in Inside(parts[i]) : Within(parts[i], q)
(* Second differences of the potential inside an electrode vanish, and radially symmetric problems get symmetric voltages *)
Laplace == \A i \in DOMAIN parts : parts[i].sh \in Closed => LET c == parts[i].poly IN
    \A q \in {<<1, 2, 3>>, <<-7, 0, 4>>} : FoldSet(LAMBDA a, s : s + Value(c, VAdd(q, Unit(a))) + Value(c, VSub(q, Unit(a))) - 2 * Value(c, q), 0, Axis) = 0
Symmetric == sym = "radial" => \A i \in DOMAIN parts : Radially(parts[i].poly) /\ \A q \in {<<3, 4, 2>>, <<5, 12, -1>>} :
    LET r == IF q[1] = 3 THEN 5 ELSE 13 IN Value(parts[i].poly, q) = Value(parts[i].poly, <<r, 0, q[3]>>)
FitsSlot == \A i \in DOMAIN parts : parts[i].h <= 30 /\ (sym = "radial" => parts[i].sh = "ball" \/ parts[i].r - parts[i].a > 0) /\ Abs(parts[i].r) + parts[i].a < 80
Done == done => (~Emit \/ PrintT("B@" \o ToJson([sym |-> sym, wall |-> wall, parts |-> [i \in DOMAIN parts |-> [part |-> parts[i], probes |-> SetToSeq(Probes(parts[i])), inside |-> SetToSeq(Inside(parts[i]))]]])))

---------------------------------------------------------------------------------
(* Traces of measurements *)
Traces == JsonDeserialize("traces.json")
Rec == Traces[tr]
Ev == Rec.ev
TraceInit == tr \in DOMAIN Traces /\ n = 0 /\ sym = 0 /\ parts = 0 /\ wall = 0 /\ done = FALSE
TraceNext == n < Len(Ev) /\ n' = n + 1 /\ UNCHANGED <<sym, parts, wall, done, tr>>
Is(k) == TraceMode /\ n > 0 /\ Ev[n].k = k
E1 == Ev[n]
Part(i) == Rec.parts[i]
Volt(i) == Part(i).what \in {"fixed", "fun", "potential"}
(* Potentials are recorded in units of 1/4000, ten times as fine as the prescribed values *)
InsideElectrode == Is("inside") => Volt(E1.i) /\ Abs(E1.v - 10 * Value(Part(E1.i).poly, E1.at)) <= Rec.tol.inside
AtSheet == Is("sheet") => Volt(E1.i) /\ Abs(E1.v - 10 * Value(Part(E1.i).poly, E1.at)) <= Rec.tol.sheet
(* k En(inside) = En(outside), weighed such that neither side dominates *)
NormalRatio == Is("ratio") => LET k == Part(E1.i).k IN Abs(k[1] * E1.inn - k[2] * E1.out) <= (k[1] + k[2]) * Rec.tol.ratio
NoNormalField == Is("wall") => Abs(E1.en) <= Rec.tol.wall
(* Extremes of the prescribed potentials and zero, as recorded at the centres of the elements *)
Between == Is("free") => E1.lo - Rec.tol.free <= E1.v /\ E1.v <= E1.hi + Rec.tol.free
UnitConstant == Is("unit") => Abs(E1.with - E1.without) <= Rec.tol.unit
=================================================================================
