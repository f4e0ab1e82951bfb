--------------------------------- MODULE Influence ---------------------------------
(* The influence of charged surface elements on other elements (property C28).  What is charged is a surface: a patch in
   space, a shell, or a line turned around the axis; how it is divided into elements, in which order their corners are
   given and where everything lies makes no difference.  Everything is on the integer lattice.
     Design   every way to divide a small patch keeps its area, its first moments and covers no point twice;
     Gen      random divisions with probes (elements that are influenced), routes between probes, and motions.  Laws:
       Division  the influence of all elements of a division is that of the whole, at every probe
       Motion    moving, turning and mirroring everything changes nothing; enlarging enlarges the potential
       Self      the influence of an element on itself is that of its parts
       Shell     the fields of a closed shell have the solid angle 4 pi inside, and none outside
       Route     the potential difference is minus the field along the route
       Axis      on the axis of a ring shaped plate everything is rational *)
EXTENDS Geo, Json
CONSTANTS Emit, MaxTiles, Coord, Small
VARIABLES kind, whole, tiles, probes, routes, motion
vars == <<kind, whole, tiles, probes, routes, motion>>
R(S) == RandomElement(S)
SumV(f(_), s) == FoldSeq(LAMBDA t, a : VAdd(f(t), a), Zero, s)
SumI(f(_), s) == FoldSeq(LAMBDA t, a : f(t) + a, 0, s)
D2(a, b) == Dot(VSub(a, b), VSub(a, b))

(* Triangles: [v |-> three corners, s |-> 1 or -1 when its corners are given the other way around] *)
N3(t) == Cross(VSub(t.v[2], t.v[1]), VSub(t.v[3], t.v[1]))
Area(t) == VScale(t.s, N3(t))                                 \* twice the area, in the direction of the surface
Sum3(t) == VAdd(t.v[1], VAdd(t.v[2], t.v[3]))
Edge2(t) == {D2(t.v[1], t.v[2]), D2(t.v[2], t.v[3]), D2(t.v[3], t.v[1])}
Even(v) == \A i \in Axis : v[i] % 2 = 0
Half(v) == <<v[1] \div 2, v[2] \div 2, v[3] \div 2>>
By3(v) == \A i \in Axis : v[i] % 3 = 0
Third(v) == <<v[1] \div 3, v[2] \div 3, v[3] \div 3>>
Put(ts, i, new) == SubSeq(ts, 1, i - 1) \o new \o SubSeq(ts, i + 1, Len(ts))
RotateT(t, k) == [t EXCEPT !.v = [j \in 1..3 |-> t.v[((j + k - 1) % 3) + 1]]]
Same(t, v) == [v |-> v, s |-> t.s]
(* Dividing at the middle of the edge from the first to the second corner, at the centre, or in four *)
Halves(t) == LET m == Half(VAdd(t.v[1], t.v[2])) IN <<Same(t, <<t.v[1], m, t.v[3]>>), Same(t, <<m, t.v[2], t.v[3]>>)>>
Thirds(t) == LET c == Third(Sum3(t)) IN <<Same(t, <<t.v[1], t.v[2], c>>), Same(t, <<t.v[2], t.v[3], c>>), Same(t, <<t.v[3], t.v[1], c>>)>>
Quarters(t) == LET a == Half(VAdd(t.v[1], t.v[2]))  b == Half(VAdd(t.v[2], t.v[3]))  c == Half(VAdd(t.v[3], t.v[1]))
               IN <<Same(t, <<t.v[1], a, c>>), Same(t, <<a, t.v[2], b>>), Same(t, <<c, b, t.v[3]>>), Same(t, <<b, c, a>>)>>
CanHalf(t) == Even(VAdd(t.v[1], t.v[2]))
CanFour(t) == CanHalf(t) /\ Even(VAdd(t.v[2], t.v[3])) /\ Even(VAdd(t.v[3], t.v[1]))
CanThird(t) == By3(Sum3(t))
Backwards(t) == [v |-> <<t.v[2], t.v[1], t.v[3]>>, s |-> -t.s]

Split == \E i \in Pick(1..Len(tiles)), k \in Pick(0..2), how \in Pick({"half", "third", "four"}) :
           LET t == RotateT(tiles[i], k) IN
           /\ CASE how = "half" -> CanHalf(t) /\ tiles' = Put(tiles, i, Halves(t))
                [] how = "third" -> CanThird(t) /\ tiles' = Put(tiles, i, Thirds(t))
                [] how = "four" -> CanFour(t) /\ tiles' = Put(tiles, i, Quarters(t))
           /\ Len(tiles') <= MaxTiles
Turn == \E i \in Pick(1..Len(tiles)), k \in Pick(1..2) : tiles' = [tiles EXCEPT ![i] = RotateT(@, k)]
Around == \E i \in Pick(1..Len(tiles)) : tiles' = [tiles EXCEPT ![i] = Backwards(@)]

(* Design *)
P0 == [v |-> <<<<0, 0, 0>>, <<4, 0, 0>>, <<0, 4, 2>>>>, s |-> 1]
Init == kind = "patch" /\ whole \in {<<P0>>, <<RotateT(P0, 1)>>, <<[v |-> <<<<0, 0, 0>>, <<6, 0, 0>>, <<0, 3, 3>>>>, s |-> 1]>>} /\ tiles = whole /\ probes = <<>> /\ routes = <<>> /\ motion = <<>>
Next == (Split \/ Turn \/ Around) /\ UNCHANGED <<kind, whole, probes, routes, motion>>
AreaKept == SumV(Area, tiles) = SumV(Area, whole)
(* The tiles of a plane patch all look the same way, so that none covers another *)
SameWay == \A i, j \in 1..Len(tiles) : kind = "patch" => Cross(Area(tiles[i]), Area(tiles[j])) = Zero /\ Dot(Area(tiles[i]), Area(tiles[j])) > 0
Moment(ts) == [i \in Axis |-> SumV(LAMBDA t : VScale(Area(t)[i], Sum3(t)), ts)]
MomentKept == Moment(tiles) = Moment(whole)
Proper == \A i \in 1..Len(tiles) : Area(tiles[i]) # Zero
Volume6(ts) == SumI(LAMBDA t : t.s * Dot(t.v[1], Cross(t.v[2], t.v[3])), ts)
VolumeKept == Volume6(tiles) = Volume6(whole)

---------------------------------------------------------------------------------
(* Where a probe can be.  Side of the plane of a triangle; position with respect to the triangle when in its plane *)
Sgn(n) == IF n > 0 THEN 1 ELSE IF n < 0 THEN -1 ELSE 0
Side(t, p) == Sgn(Dot(Area(t), VSub(p, t.v[1])))
EdgeSide(t, p, i) == LET a == t.v[i]  b == t.v[(i % 3) + 1] IN Sgn(Dot(N3(t), Cross(VSub(b, a), VSub(p, a))))
InPlane(t, p) == Side(t, p) = 0
Within(t, p) == InPlane(t, p) /\ \A i \in 1..3 : EdgeSide(t, p, i) > 0
On(t, p) == InPlane(t, p) /\ \A i \in 1..3 : EdgeSide(t, p, i) >= 0
(* Judged adaptively whatever corner comes first *)
Near(t, p) == \A i \in 1..3 : D2(t.v[i], p) < 25 * Max(Edge2(t))
All(ts, P(_, _), p) == \A i \in 1..Len(ts) : P(ts[i], p)
Both == whole \o tiles
Sharp(p) == All(Both, Near, p)
Touches(p) == \E i \in 1..Len(Both) : On(Both[i], p)
OnBorder(p) == \E i \in 1..Len(Both) : On(Both[i], p) /\ ~Within(Both[i], p)
(* A point strictly inside a closed shell around a convex body *)
Inside(p) == kind = "shell" /\ All(whole, LAMBDA t, x : Side(t, x) < 0, p)

Corner(a, b, c) == <<12 * a, 12 * b, 12 * c>>
T(a, b, c) == [v |-> <<a, b, c>>, s |-> 1]
Box(a, b, c) == LET q(i, j, k) == <<i * a, j * b, k * c>> IN
   <<T(q(0,0,0), q(0,1,0), q(1,1,0)), T(q(0,0,0), q(1,1,0), q(1,0,0)), T(q(0,0,1), q(1,0,1), q(1,1,1)), T(q(0,0,1), q(1,1,1), q(0,1,1)),
     T(q(0,0,0), q(1,0,0), q(1,0,1)), T(q(0,0,0), q(1,0,1), q(0,0,1)), T(q(0,1,0), q(0,1,1), q(1,1,1)), T(q(0,1,0), q(1,1,1), q(1,1,0)),
     T(q(0,0,0), q(0,0,1), q(0,1,1)), T(q(0,0,0), q(0,1,1), q(0,1,0)), T(q(1,0,0), q(1,1,0), q(1,1,1)), T(q(1,0,0), q(1,1,1), q(1,0,1))>>
Tetra(a, b, c) == LET o == <<0, 0, 0>>  x == <<a, 0, 0>>  y == <<0, b, 0>>  z == <<0, 0, c>> IN <<T(o, y, x), T(o, x, z), T(o, z, y), T(x, y, z)>>
Closed(ts) == \A i \in 1..Len(ts), k \in 1..3 : Cardinality({<<j, l>> \in (1..Len(ts)) \X (1..3) : ts[j].v[l] = ts[i].v[(k % 3) + 1] /\ ts[j].v[(l % 3) + 1] = ts[i].v[k]}) = 1
InitShell == kind = "shell" /\ whole \in {Box(1, 2, 3), Box(2, 2, 2), Tetra(1, 2, 3)} /\ tiles = <<>> /\ probes = <<>> /\ routes = <<>> /\ motion = <<>>
ShellClosed == Closed(whole) /\ SumV(Area, whole) = Zero /\ Volume6(whole) > 0

Vec12 == {-12, 0, 12} \X {-12, 0, 12} \X {-24, 0, 12}
(* (with an argument, as TLC evaluates constants once) *)
Coordinate(x) == IF x = "slender" THEN R((-9 * Coord)..(9 * Coord)) ELSE R(-Coord..Coord)
Point(x) == <<Coordinate(x), Coordinate(x), Coordinate(x)>>
Begin == /\ kind = "" /\ kind' = R({"patch", "pair", "shell", "slender"})
         /\ CASE kind' = "shell" -> \E a \in {R({12, 24})}, b \in {R({12, 24})}, c \in {R({12, 18})} : whole' = R({Box(a, b, c), Tetra(a, b, c)})
              [] kind' = "slender" -> \E a \in {<<R({-2, 0, 2}), R({-2, 0, 2}), R({0, 2})>>}, b \in {<<R({-48, 0, 36}), R({-24, 0, 48}), R({0, 24, 48})>>} :
                             /\ a # Zero /\ Dot(b, b) >= 1296 /\ Cross(a, b) # Zero
                             /\ whole' = <<RotateT(T(Zero, a, b), R(0..2))>>
              [] OTHER -> \E o \in {<<R({-6, 0, 6}), R({-6, 0}), 0>>}, a \in {R(Vec12)}, b \in {R(Vec12)} :
                             /\ Cross(a, b) # Zero
                             /\ whole' = IF kind' = "patch" THEN <<T(o, VAdd(o, a), VAdd(o, b))>>
                                         ELSE <<T(o, VAdd(o, a), VAdd(o, VAdd(a, b))), T(o, VAdd(o, VAdd(a, b)), VAdd(o, b))>>
         /\ tiles' = whole' /\ UNCHANGED <<probes, routes, motion>>
Signs == {-1, 1} \X {-1, 1} \X {-1, 1}
Perms == {Identity, MatMul(Quarter(1), Quarter(2)), MatMul(Quarter(2), Quarter(1)), Quarter(1), Quarter(2), Quarter(3)}
ASigned(g, m) == [i \in 1..3 |-> VScale(g[i], m[i])]
(* Probes anywhere, far away, and near or on the tiles *)
NewProbe == \E p \in {IF kind = "shell" /\ R(1..2) = 1 THEN VAdd(<<R(1..3), R(1..3), R(1..2)>>, VScale(R({0, 1, 2}), Unit(R(Axis))))
                      ELSE IF R(1..3) = 1 THEN (IF R(1..3) = 1 THEN VScale(R({15, 40, 100}), Point(kind)) ELSE Point(kind))
                      ELSE LET t == tiles[R(1..Len(tiles))] IN IF R(1..3) = 1 /\ By3(Sum3(t)) THEN Third(Sum3(t)) ELSE VAdd(t.v[R(1..3)], <<R(-5..5), R(-5..5), R(-5..5)>>)} :
              /\ ~OnBorder(p) /\ \A i \in 1..Len(probes) : probes[i].p # p
              /\ probes' = Append(probes, [p |-> p, sharp |-> Sharp(p), touch |-> Touches(p), inside |-> Inside(p)])
              /\ UNCHANGED <<kind, whole, tiles, routes, motion>>
NewRoute == \E p \in {Point(kind), Point(kind)}, q \in {Point(kind), Point(kind)} :
              /\ p # q /\ \E i \in 1..Len(whole) : IF kind = "shell" THEN Side(whole[i], p) > 0 /\ Side(whole[i], q) > 0 ELSE Side(whole[i], p) # 0 /\ Side(whole[i], p) = Side(whole[i], q)
              /\ routes' = Append(routes, [p |-> p, q |-> q])
              /\ UNCHANGED <<kind, whole, tiles, probes, motion>>
Finish == /\ motion = <<>> /\ Len(probes) >= 4 /\ (Len(routes) >= 1 \/ Len(probes) >= 7)
          /\ motion' = <<[m |-> ASigned(R(Signs), R(Perms)), d |-> Point(kind), k |-> R(-24..12)]>>
          /\ UNCHANGED <<kind, whole, tiles, probes, routes>>
InitSim == kind = "" /\ whole = <<>> /\ tiles = <<>> /\ probes = <<>> /\ routes = <<>> /\ motion = <<>>
NextSim == IF kind = "" THEN Begin
           ELSE /\ motion = <<>>
                /\ \/ probes = <<>> /\ (Split \/ Split \/ Turn \/ Around) /\ UNCHANGED <<kind, whole, probes, routes, motion>>
                   \/ NewProbe \/ NewProbe \/ NewRoute \/ Finish
Done == motion = <<>> \/ ~Emit \/ PrintT("B@" \o ToJson([kind |-> kind, whole |-> [i \in 1..Len(whole) |-> whole[i].v], tiles |-> [i \in 1..Len(tiles) |-> tiles[i].v],
                                  areas |-> [i \in 1..Len(tiles) |-> Area(tiles[i])], probes |-> probes, routes |-> routes, motion |-> motion[1]]))

---------------------------------------------------------------------------------
(* Lines around the axis: [c |-> four points (r, z) at the parameters -3, -1, 1, 3].  The point at parameter n/3, times 1296 *)
B4(n) == <<-(n + 3) * (n - 3) * (n - 9), 3 * (n + 9) * (n - 3) * (n - 9), -3 * (n + 9) * (n + 3) * (n - 9), (n + 9) * (n + 3) * (n - 3)>>
At(c, n) == <<FoldSeq(LAMBDA i, a : B4(n)[i] * c[i][1] + a, 0, <<1, 2, 3, 4>>), FoldSeq(LAMBDA i, a : B4(n)[i] * c[i][2] + a, 0, <<1, 2, 3, 4>>)>>
(* Design: a cubic through points of a cubic is the same curve.  Parts run from lo to hi, on the scale of -9 to 9 *)
Parts == {<<-9, -3>>, <<-3, 3>>, <<3, 9>>, <<-9, 9>>}
PartNodes(a) == [i \in 1..4 |-> a[1] + ((i - 1) * (a[2] - a[1])) \div 3]
Weights == \A n \in -9..9 : B4(n)[1] + B4(n)[2] + B4(n)[3] + B4(n)[4] = 1296
Nodes == \A i \in 1..4 : B4(6 * i - 15) = [j \in 1..4 |-> IF i = j THEN 1296 ELSE 0]
(* Sub-division: the nodes of the part reproduce the whole at every parameter of the part (cubes times 1296) *)
Reproduces == \A a \in Parts, k \in {-9, -7, -3, -1, 1, 5, 9}, j \in 1..4 : (k * (a[2] - a[1])) % 18 = 0 =>
                LET m == (a[1] + a[2]) \div 2 + (k * (a[2] - a[1])) \div 18
                IN FoldSeq(LAMBDA i, s : B4(k)[i] * B4(PartNodes(a)[i])[j] + s, 0, <<1, 2, 3, 4>>) = 1296 * B4(m)[j]
Thirds4(c) == <<[i \in 1..4 |-> At(c, PartNodes(<<-9, -3>>)[i])], [i \in 1..4 |-> At(c, PartNodes(<<-3, 3>>)[i])], [i \in 1..4 |-> At(c, PartNodes(<<3, 9>>)[i])]>>
Q2(a, b) == (a[1] - b[1]) * (a[1] - b[1]) + (a[2] - b[2]) * (a[2] - b[2])
Span2(c) == Max({Q2(c[i], c[j]) : i, j \in 1..4})
InitRing == kind = "" /\ whole = <<>> /\ tiles = <<>> /\ probes = <<>> /\ routes = <<>> /\ motion = <<>>
(* A straight line or a bent one, away from the axis or ending on it *)
StartRing == /\ kind = "" /\ kind' = R({"straight", "bent", "axis", "cubic"})
             /\ \E r \in {IF kind' = "axis" THEN 0 ELSE R(2..20)}, z \in {R(-9..9)}, a \in {<<R(1..5), R(-4..4)>>} :
                  \E bend \in {IF kind' \in {"straight", "axis"} THEN <<<<0, 0>>, <<0, 0>>>> ELSE IF kind' = "bent" THEN LET b == <<-Sgn(a[2]), R({-1, 1})>> IN <<b, b>> ELSE <<<<R(0..1), R(-1..1)>>, <<R(-1..0), R(-1..1)>>>>} :
                    whole' = LET q(i, b) == <<6 * (r + i * a[1]) + b[1], 6 * (z + i * a[2]) + b[2]>> IN <<q(0, <<0, 0>>), q(1, bend[1]), q(2, bend[2]), q(3, <<0, 0>>)>>
             /\ tiles' = Thirds4(whole') /\ UNCHANGED <<probes, routes, motion>>
RPoint(x) == <<R(1..(5 * Coord)), R((-4 * Coord)..(4 * Coord))>>
RingClear(p) == \A i \in 1..4 : 4 * Q2(whole[i], p) >= Span2(whole)
RingProbe == \E p \in {IF R(1..4) = 1 THEN <<0, R((-4 * Coord)..(4 * Coord))>> ELSE RPoint(kind)} :
               RingClear(p) /\ probes' = Append(probes, p) /\ UNCHANGED <<kind, whole, tiles, routes, motion>>
(* Routes above, below or around everything *)
Beyond(p) == IF \A i \in 1..4 : p[2] > whole[i][2] + 8 THEN 1 ELSE IF \A i \in 1..4 : p[2] < whole[i][2] - 8 THEN 2 ELSE IF \A i \in 1..4 : p[1] > whole[i][1] + 8 THEN 3 ELSE 0
RingRoute == \E p \in {RPoint(kind), RPoint(kind)}, q \in {RPoint(kind), RPoint(kind)} : p # q /\ Beyond(p) # 0 /\ Beyond(p) = Beyond(q) /\ RingClear(p) /\ RingClear(q)
                /\ routes' = Append(routes, [p |-> p, q |-> q]) /\ UNCHANGED <<kind, whole, tiles, probes, motion>>
RingFinish == Len(probes) >= 4 /\ (Len(routes) >= 1 \/ Len(probes) >= 7) /\ motion = <<>> /\ motion' = <<[mirror |-> R({1, -1}), d |-> Coordinate(kind), k |-> R(-16..12), part |-> R({<<1, 2, 3>>, <<3, 1, 2>>, <<2, 3, 1>>}), back |-> <<R({0, 1}), R({0, 1}), R({0, 1})>>]>>
              /\ UNCHANGED <<kind, whole, tiles, probes, routes>>
NextRing == IF kind = "" THEN StartRing ELSE /\ motion = <<>>
                /\ (RingProbe \/ RingProbe \/ RingRoute \/ RingFinish)
RingDone == motion = <<>> \/ ~Emit \/ PrintT("B@" \o ToJson([kind |-> kind, whole |-> whole, tiles |-> tiles, probes |-> probes, routes |-> routes, motion |-> motion[1]]))

(* Plates around the axis seen from the axis: r in [a, b], distance h, and the distances to the rims *)
Triples == {<<0, 12, 12>>, <<5, 12, 13>>, <<9, 12, 15>>, <<16, 12, 20>>, <<35, 12, 37>>}
Rational == \A t \in Triples : t[1] * t[1] + t[2] * t[2] = t[3] * t[3]
(* potential (q - p) / 2; field away from the plate h / 2 (1/p - 1/q) *)
InitAxis == \E s, t \in Triples, z \in {-7, 0, 4}, side \in {1, -1}, k \in {-8, -3, 0, 6} : s[1] < t[1] /\ kind = "axis" /\ whole = <<s, t>>
            /\ tiles = z /\ probes = side /\ routes = k /\ motion = <<>>
AxisDone == ~Emit \/ PrintT("B@" \o ToJson([a |-> whole[1][1], b |-> whole[2][1], h |-> 12, z |-> tiles, side |-> probes, k |-> routes,
                                pot |-> <<whole[2][3] - whole[1][3], 2>>, field |-> <<12 * (whole[2][3] - whole[1][3]), 2 * whole[1][3] * whole[2][3]>>]))
=====================================================================================
