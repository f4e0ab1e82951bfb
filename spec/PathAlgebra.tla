------------------------------ MODULE PathAlgebra ------------------------------
(* The algebra of paths: what constructing, joining, cutting, re-phasing, naming and transforming
   paths means (traceon/geometry.py, class Path).  A path is a starting point and a sequence of
   segments; a joint between two segments is a corner, unless it is an artefact of our
   representation (the seam that re-phasing or re-joining leaves is a corner too: the code keeps it).

   A segment is a lattice line of n steps of a primitive direction with an integer length, or an
   arc  c + cos(t) u + sin(t) v,  t from t0 to t1, t = <<k, m>> = k*pi/8 + m*phi.

   State: a heap of paths, which operations extend but never modify (except for naming), and the
   history of operations with what they return.  The harness executes the history on the real
   classes and compares every path of the heap, the old ones included. *)
EXTENDS Geo, Json

CONSTANTS Depth, B, MaxHeap, Dirs, MaxN, Radii, Names, Moves, ArcEnds, Emit

VARIABLES heap, hist
vars == <<heap, hist>>

PLen(d) == CHOOSE n \in 1..9 : n * n = Dot(d, d)        \* length of a primitive direction

---------------------------------------------------------------------------------
(* Points: lattice points, or symbolic points on an arc when they have no lattice coordinates *)
Lattice(p) == [c |-> p, u |-> Zero, v |-> Zero, k |-> 0, m |-> 0]
Div5(a) == a[1] % 5 = 0 /\ a[2] % 5 = 0 /\ a[3] % 5 = 0
By5(a) == <<a[1] \div 5, a[2] \div 5, a[3] \div 5>>
(* cos and sin of k*pi/2 + m*phi, times 5 *)
CosQ(q) == CASE q % 4 = 0 -> 1 [] q % 4 = 1 -> 0 [] q % 4 = 2 -> -1 [] q % 4 = 3 -> 0
SinQ(q) == CosQ(q + 3)
Cos5(q, m) == IF m = 0 THEN 5 * CosQ(q) ELSE 3 * CosQ(q) - 4 * m * SinQ(q)
Sin5(q, m) == IF m = 0 THEN 5 * SinQ(q) ELSE 3 * SinQ(q) + 4 * m * CosQ(q)
ArcPoint(s, t) ==
    LET q == t[1] \div 4
        w == VAdd(VScale(Cos5(q, t[2]), s.u), VScale(Sin5(q, t[2]), s.v))
    IN  IF t[1] % 4 = 0 /\ t[2] \in {-1, 0, 1} /\ Div5(w) THEN Lattice(VAdd(s.c, By5(w)))
        ELSE [c |-> s.c, u |-> s.u, v |-> s.v, k |-> t[1] % 16, m |-> t[2]]
IsLattice(p) == p.u = Zero

Line(a, d, n) == [t |-> "L", a |-> a, d |-> d, n |-> n, corner |-> TRUE]
Arc(c, u, v, t0, t1) == [t |-> "A", c |-> c, u |-> u, v |-> v, t0 |-> t0, t1 |-> t1, corner |-> TRUE]
Radius(s) == CHOOSE r \in 1..100 : r * r = Dot(s.u, s.u)
SegStart(s) == IF s.t = "L" THEN Lattice(s.a) ELSE ArcPoint(s, s.t0)
SegEnd(s) == IF s.t = "L" THEN Lattice(VAdd(s.a, VScale(s.n, s.d))) ELSE ArcPoint(s, s.t1)
SegLen(s) == IF s.t = "L" THEN <<s.n * PLen(s.d), 0, 0>>
             ELSE LET r == Radius(s) IN <<0, r * (s.t1[1] - s.t0[1]), r * (s.t1[2] - s.t0[2])>>

(* A path: start, segments (corner: the joint at the start of the segment is a corner) *)
Start(p) == p.start
End(p) == IF p.segs = <<>> THEN p.start ELSE SegEnd(Last(p.segs))
Length(p) == LSum([i \in DOMAIN p.segs |-> SegLen(p.segs[i])])
Before(p, i) == LSum([j \in 1..(i - 1) |-> SegLen(p.segs[j])])
Corners(p) == SortL({Before(p, i) : i \in {j \in 2..Len(p.segs) : p.segs[j].corner}})
Closed(p) == Start(p) = End(p)
MkPath(segs, name) == [start |-> SegStart(segs[1]), segs |-> segs, name |-> name]
Proj(p) == [name |-> p.name, segs |-> p.segs, start |-> p.start, end |-> End(p), len |-> Length(p), corners |-> Corners(p), closed |-> Closed(p)]

---------------------------------------------------------------------------------
(* Stations: where a path can be cut exactly.  A station is <<i, x>>: inside or at the start of
   segment i, x = steps along a line, or an angle <<k, m>> on an arc. *)
LineStations(s) == 0..(s.n - 1)
AngMicro(t) == Micro(<<0, t[1], t[2]>>)
ArcStations(s) == {s.t0} \union {t \in {<<k, m>> : k \in 0..15, m \in {s.t0[2]}} \union {<<k, m>> : k \in 0..15, m \in {s.t1[2]}} :
                                   AngMicro(s.t0) + 50000 < AngMicro(t) /\ AngMicro(t) < AngMicro(s.t1) - 50000}
Stations(p) == UNION {{<<i, x>> : x \in IF p.segs[i].t = "L" THEN LineStations(p.segs[i]) ELSE ArcStations(p.segs[i])} : i \in DOMAIN p.segs}
StationPos(p, st) ==
    LET s == p.segs[st[1]] IN
    LAdd(Before(p, st[1]), IF s.t = "L" THEN <<st[2] * PLen(s.d), 0, 0>>
                           ELSE <<0, Radius(s) * (st[2][1] - s.t0[1]), Radius(s) * (st[2][2] - s.t0[2])>>)
AtSegStart(s, x) == IF s.t = "L" THEN x = 0 ELSE x = s.t0
SegHead(s, x) == IF s.t = "L" THEN [s EXCEPT !.n = x] ELSE [s EXCEPT !.t1 = x]
SegTail(s, x) == IF s.t = "L" THEN [s EXCEPT !.a = VAdd(s.a, VScale(x, s.d)), !.n = s.n - x] ELSE [s EXCEPT !.t0 = x]
HeadSegs(p, st) == LET s == p.segs[st[1]] IN SubSeq(p.segs, 1, st[1] - 1) \o (IF AtSegStart(s, st[2]) THEN <<>> ELSE <<SegHead(s, st[2])>>)
TailSegs(p, st) == LET s == p.segs[st[1]]
                       first == SegTail(s, st[2])
                   IN  <<first>> \o SubSeq(p.segs, st[1] + 1, Len(p.segs))
StationPoint(p, st) == LET s == p.segs[st[1]] IN IF s.t = "L" THEN Lattice(VAdd(s.a, VScale(st[2], s.d))) ELSE ArcPoint(s, st[2])
Joint(segs) == IF segs = <<>> THEN <<>> ELSE <<[segs[1] EXCEPT !.corner = TRUE]>> \o Tail(segs)   \* a join makes a corner

CutHead(p, st) == [start |-> p.start, segs |-> HeadSegs(p, st), name |-> p.name]
CutTail(p, st) == [start |-> StationPoint(p, st), segs |-> TailSegs(p, st), name |-> p.name]
ConcatPaths(p, q) == [start |-> p.start, segs |-> p.segs \o Joint(q.segs), name |-> p.name]
Phase(p, st) == [start |-> StationPoint(p, st), segs |-> TailSegs(p, st) \o Joint(HeadSegs(p, st)), name |-> p.name]

(* Rigid maps x -> M x + b, M a signed permutation *)
MapPoint(M, b, p) == [p EXCEPT !.c = VAdd(MatVec(M, p.c), b), !.u = MatVec(M, p.u), !.v = MatVec(M, p.v)]
MapSeg(M, b, s) == IF s.t = "L" THEN [s EXCEPT !.a = VAdd(MatVec(M, s.a), b), !.d = MatVec(M, s.d)]
                   ELSE [s EXCEPT !.c = VAdd(MatVec(M, s.c), b), !.u = MatVec(M, s.u), !.v = MatVec(M, s.v)]
MapPath(M, b, p) == [start |-> MapPoint(M, b, p.start), segs |-> [i \in DOMAIN p.segs |-> MapSeg(M, b, p.segs[i])], name |-> p.name]
Translate(d, p) == MapPath(Identity, d, p)

---------------------------------------------------------------------------------
Coord(a) == \A i \in 1..3 : Abs(a[i]) <= B
PathFits(p) == Len(p.segs) <= 9 /\ \A i \in DOMAIN p.segs : LET s == p.segs[i] IN
    IF s.t = "L" THEN Coord(s.a) /\ Coord(VAdd(s.a, VScale(s.n, s.d))) ELSE Coord(s.c)
Real(i) == heap[i].segs # <<>>                   \* not the empty piece of a cut at an end point
Room == Len(heap) < MaxHeap
Push(op, args, new) ==
    /\ \A i \in DOMAIN new : PathFits(new[i])
    /\ heap' = heap \o new
    /\ hist' = Append(hist, [op |-> op, args |-> args, new |-> [i \in DOMAIN new |-> Proj(new[i])]])
Running == Len(hist) < Depth

Some == Pick(DOMAIN heap)
NewLine == /\ Running /\ Room
           /\ \E a \in Pick(Moves), d \in Pick(Dirs), n \in Pick(1..MaxN) :
                Push("line", [a |-> a, b |-> VAdd(a, VScale(n, d))], <<MkPath(<<Line(a, d, n)>>, "")>>)
LineTo == /\ Running /\ Room /\ heap # <<>>
          /\ \E i \in Some, d \in Pick(Dirs), n \in Pick(1..MaxN) :
               /\ IsLattice(End(heap[i])) /\ Real(i)
               /\ LET a == End(heap[i]).c IN
                  Push("line_to", [i |-> i, b |-> VAdd(a, VScale(n, d))], <<[heap[i] EXCEPT !.segs = Append(@, Line(a, d, n))]>>)
(* An arc of the angle <<k, m>>; the reverse flag goes around the other way *)
ArcTo == /\ Running /\ Room /\ heap # <<>>
         /\ \E i \in Some, r \in Pick(Radii), a1 \in Pick(Axis), s1 \in Pick({-1, 1}), a2 \in Pick(Axis), s2 \in Pick({-1, 1}),
               e \in Pick(ArcEnds), rev \in Pick(BOOLEAN) :
              /\ a1 # a2 /\ IsLattice(End(heap[i])) /\ Real(i)
              /\ LET a == End(heap[i]).c
                     u == VScale(s1 * r, Unit(a1))
                     v == VScale(s2 * r, Unit(a2))
                     c == VSub(a, u)
                     b == ArcPoint([c |-> c, u |-> u, v |-> v], e)
                     seg == IF rev THEN Arc(c, u, VNeg(v), <<0, 0>>, <<16 - e[1], -e[2]>>) ELSE Arc(c, u, v, <<0, 0>>, e)
                 IN /\ IsLattice(b)
                    /\ Push("arc_to", [i |-> i, center |-> c, end |-> b.c, reverse |-> rev], <<[heap[i] EXCEPT !.segs = Append(@, seg)]>>)
NewArc == /\ Running /\ Room
          /\ \E c \in Pick(Moves), r \in Pick(Radii), a1 \in Pick(Axis), s1 \in Pick({-1, 1}), a2 \in Pick(Axis), s2 \in Pick({-1, 1}),
                e \in Pick(ArcEnds), rev \in Pick(BOOLEAN) :
               /\ a1 # a2
               /\ LET u == VScale(s1 * r, Unit(a1))
                      v == VScale(s2 * r, Unit(a2))
                      b == ArcPoint([c |-> c, u |-> u, v |-> v], e)
                      seg == IF rev THEN Arc(c, u, VNeg(v), <<0, 0>>, <<16 - e[1], -e[2]>>) ELSE Arc(c, u, v, <<0, 0>>, e)
                  IN /\ IsLattice(b)
                     /\ Push("arc", [center |-> c, start |-> VAdd(c, u), end |-> b.c, reverse |-> rev], <<MkPath(<<seg>>, "")>>)
(* circle_xy, circle_yz, circle_xz: n = the axis that is missing *)
NewCircle == /\ Running /\ Room
             /\ \E n \in Pick(Axis), c \in Pick(Moves), r \in Pick(Radii), k \in Pick({2, 4, 7, 8, 12, 16}) :
                  LET a1 == IF n = 1 THEN 2 ELSE 1
                      a2 == IF n = 3 THEN 2 ELSE 3
                      cc == [c EXCEPT ![n] = 0]
                  IN  Push("circle", [n |-> n, c1 |-> c[a1], c2 |-> c[a2], r |-> r, k |-> k],
                           <<MkPath(<<Arc(cc, VScale(r, Unit(a1)), VScale(r, Unit(a2)), <<0, 0>>, <<k, 0>>)>>, "")>>)
Polyline(ps) == LET Seg(i) == LET a == ps[i] w == VSub(ps[i + 1], ps[i])
                                  l == CHOOSE n \in 1..100 : n * n = Dot(w, w)
                              IN  Line(a, <<w[1] \div l, w[2] \div l, w[3] \div l>>, l)
                IN  MkPath([i \in 1..(Len(ps) - 1) |-> Seg(i)], "")
(* Rectangles: the corners in the order of traversal, as the code has it *)
NewRectangle ==
    /\ Running /\ Room
    /\ \E n \in Pick(Axis), lo \in Pick(Moves), w \in Pick(1..MaxN), h \in Pick(1..MaxN) :
         LET x0 == lo[1] x1 == lo[1] + w z0 == lo[2] z1 == lo[2] + h
             pts == CASE n = 2 -> <<<<x0, 0, z0>>, <<x1, 0, z0>>, <<x1, 0, z1>>, <<x0, 0, z1>>, <<x0, 0, z0>>>>
                      [] n = 1 -> <<<<0, x0, z0>>, <<0, x0, z1>>, <<0, x1, z1>>, <<0, x1, z0>>, <<0, x0, z0>>>>
                      [] n = 3 -> <<<<x0, z0, 0>>, <<x0, z1, 0>>, <<x1, z1, 0>>, <<x1, z0, 0>>, <<x0, z0, 0>>>>
         IN  Push("rectangle", [n |-> n, a0 |-> x0, a1 |-> x1, b0 |-> z0, b1 |-> z1], <<Polyline(pts)>>)
NewAperture ==
    /\ Running /\ Room
    /\ \E hh \in Pick(1..3), r \in Pick(1..3), w \in Pick(1..MaxN), z \in Pick(-2..2) :
         Push("aperture", [height |-> 2 * hh, radius |-> r, extent |-> r + w, z |-> z],
              <<Polyline(<<<<r + w, 0, z - hh>>, <<r, 0, z - hh>>, <<r, 0, z + hh>>, <<r + w, 0, z + hh>>>>)>>)
Close == /\ Running /\ Room /\ heap # <<>>
         /\ \E i \in Some :
              /\ IsLattice(Start(heap[i])) /\ IsLattice(End(heap[i])) /\ Real(i)
              /\ LET a == End(heap[i]).c  w == VSub(Start(heap[i]).c, a) IN
                 /\ w # Zero
                 /\ \E d \in Dirs, n \in 1..(4 * B) : VScale(n, d) = w /\
                       Push("close", [i |-> i], <<[heap[i] EXCEPT !.segs = Append(@, Line(a, d, n))]>>)
(* Join: the second path is moved to where the first one ends *)
Join == /\ Running /\ Room /\ Len(heap) + 2 <= MaxHeap /\ heap # <<>>
        /\ \E i \in Some, j \in Some :
             /\ IsLattice(End(heap[i])) /\ IsLattice(Start(heap[j]))
             /\ LET d == VSub(End(heap[i]).c, Start(heap[j]).c) IN
                Push("join", [i |-> i, j |-> j, d |-> d], <<Translate(d, heap[j]), ConcatPaths(heap[i], Translate(d, heap[j]))>>)
(* Join two paths that already fit (the two pieces of a cut among them) *)
JoinFit == /\ Running /\ Room /\ heap # <<>>
           /\ \E i \in Some, j \in DOMAIN heap :
                /\ End(heap[i]) = Start(heap[j]) /\ i # j
                /\ Push("concat", [i |-> i, j |-> j], <<ConcatPaths(heap[i], heap[j])>>)
Cut == /\ Running /\ Room /\ Len(heap) + 2 <= MaxHeap /\ heap # <<>>
       /\ \E i \in Some :
            /\ Real(i)
            /\ \E st \in Pick(Stations(heap[i]) \union {<<0, 0>>}) :
                 LET end == st[1] = 0
                     p == heap[i] IN
                 Push("cut", [i |-> i, at |-> IF end THEN Length(p) ELSE StationPos(p, st)],
                      IF end THEN <<p, [start |-> End(p), segs |-> <<>>, name |-> p.name]>> ELSE <<CutHead(p, st), CutTail(p, st)>>)
(* Re-phase by a station, plus a number of laps around *)
AddPhase == /\ Running /\ Room /\ heap # <<>>
            /\ \E i \in Some :
                 /\ Real(i) /\ Closed(heap[i])
                 /\ \E st \in Pick(Stations(heap[i])), laps \in Pick({-1, 0, 0, 1}) :
                      Push("add_phase", [i |-> i, at |-> LAdd(StationPos(heap[i], st), LScale(laps, Length(heap[i])))], <<Phase(heap[i], st)>>)
Move == /\ Running /\ Room /\ heap # <<>>
        /\ \E i \in Some, d \in Pick(Moves) : Push("move", [i |-> i, d |-> d], <<Translate(d, heap[i])>>)
Rotate == /\ Running /\ Room /\ heap # <<>>
          /\ \E i \in Some, ax \in Pick(Axis), k \in Pick({-1, 1, 2, 3}), o \in Pick(Moves) :
               LET M == Turns(ax, k % 4) IN
               Push("rotate", [i |-> i, axis |-> ax, quarters |-> k, origin |-> o], <<MapPath(M, VSub(o, MatVec(M, o)), heap[i])>>)
Mirror == /\ Running /\ Room /\ heap # <<>>
          /\ \E i \in Some, ax \in Pick(Axis) : Push("mirror", [i |-> i, axis |-> ax], <<MapPath(MirrorM(ax), Zero, heap[i])>>)
SetName == /\ Running /\ heap # <<>>
           /\ \E i \in Some, n \in Pick(Names) :
                /\ heap' = [heap EXCEPT ![i].name = n]
                /\ hist' = Append(hist, [op |-> "name", args |-> [i |-> i, name |-> n], new |-> <<>>])

Init == heap = <<>> /\ hist = <<>>
Next == NewLine \/ LineTo \/ ArcTo \/ NewArc \/ NewCircle \/ NewRectangle \/ NewAperture \/ Close \/ Join \/ JoinFit
        \/ Cut \/ AddPhase \/ Move \/ Rotate \/ Mirror \/ SetName
(* Focus on joins (C01) or on cuts and phases (C02) *)
NextJoin == NewLine \/ LineTo \/ ArcTo \/ NewArc \/ NewCircle \/ NewRectangle \/ NewAperture \/ Close \/ Join \/ Join \/ JoinFit \/ Move \/ SetName
NextCut == NewArc \/ NewCircle \/ NewRectangle \/ LineTo \/ ArcTo \/ Close \/ Join \/ JoinFit \/ JoinFit \/ Cut \/ Cut \/ AddPhase \/ AddPhase \/ SetName
(* A small alphabet for exhaustive checks of deeper histories *)
NextSmall == NewLine \/ LineTo \/ Close \/ Join \/ JoinFit \/ Cut \/ AddPhase \/ Mirror \/ SetName
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------------
(* Properties of the design *)
Continuous == \A i \in DOMAIN heap : \A j \in DOMAIN heap[i].segs :
    (IF j = 1 THEN heap[i].start ELSE SegEnd(heap[i].segs[j - 1])) = SegStart(heap[i].segs[j])
PositiveParts == \A i \in DOMAIN heap : \A j \in DOMAIN heap[i].segs : Micro(SegLen(heap[i].segs[j])) > 0
CornersInside == \A i \in DOMAIN heap : LET c == Corners(heap[i]) IN
    /\ \A j \in DOMAIN c : LLess(L0, c[j]) /\ LLess(c[j], Length(heap[i]))
    /\ \A j \in 1..(Len(c) - 1) : LLess(c[j], c[j + 1])
(* Every operation adds up: judged on the last operation of the history *)
LastOp == Last(hist)
LengthsAddUp == hist = <<>> \/ LET o == LastOp IN
    CASE o.op = "concat" -> o.new[1].len = LAdd(Length(heap[o.args.i]), Length(heap[o.args.j]))
      [] o.op = "join" -> o.new[2].len = LAdd(Length(heap[o.args.i]), Length(heap[o.args.j]))
      [] o.op = "cut" -> LAdd(o.new[1].len, o.new[2].len) = Length(heap[o.args.i]) /\ o.new[1].len = o.args.at
      [] o.op = "add_phase" -> o.new[1].len = Length(heap[o.args.i]) /\ o.new[1].closed
      [] o.op \in {"move", "rotate", "mirror"} -> o.new[1].len = Length(heap[o.args.i]) /\ o.new[1].corners = Corners(heap[o.args.i])
      [] o.op = "close" -> o.new[1].closed
      [] OTHER -> TRUE
CutKeepsCorners == hist = <<>> \/ LastOp.op # "cut" \/ LET o == LastOp
                                                           all == ToSet(Corners(heap[o.args.i])) \ {o.args.at}
    IN ToSet(o.new[1].corners) \union {LAdd(c, o.args.at) : c \in ToSet(o.new[2].corners)} = all
Done == (Len(hist) = Depth) => (~Emit \/ PrintT("B@" \o ToJson([ops |-> hist, heap |-> [i \in DOMAIN heap |-> Proj(heap[i])]])))
=================================================================================
