------------------------------ MODULE SurfaceMesh ------------------------------
(* What the mesh of a surface must be (property C07): a conforming triangulation of its parameter
   rectangle that respects the grid lines of its corners and the requested size.
     Design  exhaustively: whatever the order and direction in which quads of a grid are halved, giving
             every quad all mesh points on its edges and cutting corners off yields a conforming
             triangulation (this is the algorithm of traceon/mesher.py, class PointsWithQuads);
     Gen     random requests for the real code;
     Trace   the triangles of real meshes, one per step. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt, FiniteSetsExt
CONSTANTS GX, GY, Lines, GenN, TraceMode
VARIABLES tr, n
vars == <<tr, n>>

Abs(x) == IF x < 0 THEN -x ELSE x
Twice(a, b, c) == (b[1] - a[1]) * (c[2] - a[2]) - (c[1] - a[1]) * (b[2] - a[2])

---------------------------------------------------------------------------------
(* Design: tr is the set of quads <<i0, i1, j0, j1>> *)
Start == {<<a[1], a[2], 0, GY>> : a \in {<<x, y>> \in (Lines \union {0, GX}) \X (Lines \union {0, GX}) : x < y /\ \A z \in Lines : ~(x < z /\ z < y)}}
SplitU(q) == LET m == (q[1] + q[2]) \div 2 IN {<<q[1], m, q[3], q[4]>>, <<m, q[2], q[3], q[4]>>}
SplitV(q) == LET m == (q[3] + q[4]) \div 2 IN {<<q[1], q[2], q[3], m>>, <<q[1], q[2], m, q[4]>>}
CanU(q) == q[2] - q[1] >= 2
CanV(q) == q[4] - q[3] >= 2
Refine == \E q \in tr :
    \/ CanU(q) /\ tr' = (tr \ {q}) \union SplitU(q)
    \/ CanV(q) /\ tr' = (tr \ {q}) \union SplitV(q)
    \/ CanU(q) /\ CanV(q) /\ tr' = (tr \ {q}) \union UNION {SplitV(p) : p \in SplitU(q)}
DesignSpec == tr = Start /\ n = 0 /\ [][Refine /\ UNCHANGED n]_vars
Corner(q) == {<<q[1], q[3]>>, <<q[1], q[4]>>, <<q[2], q[3]>>, <<q[2], q[4]>>}
Points == UNION {Corner(q) : q \in tr}
(* All points on the edge from p (inclusive) to q (exclusive), in order *)
OnEdge(p, q) == LET s == {x \in Points : Twice(p, q, x) = 0 /\ Min({p[1], q[1]}) <= x[1] /\ x[1] <= Max({p[1], q[1]})
                                                            /\ Min({p[2], q[2]}) <= x[2] /\ x[2] <= Max({p[2], q[2]}) /\ x # q}
                    d(x) == Abs(x[1] - p[1]) + Abs(x[2] - p[2])
                IN  SetToSortSeq(s, LAMBDA x, y : d(x) < d(y))
Polygon(q) == OnEdge(<<q[1], q[3]>>, <<q[2], q[3]>>) \o OnEdge(<<q[2], q[3]>>, <<q[2], q[4]>>)
              \o OnEdge(<<q[2], q[4]>>, <<q[1], q[4]>>) \o OnEdge(<<q[1], q[4]>>, <<q[1], q[3]>>)
At(p, i) == p[((i - 1 + Len(p)) % Len(p)) + 1]
RECURSIVE Area(_, _)
Area(p, i) == IF i > Len(p) - 1 THEN 0 ELSE Twice(p[1], p[i], p[i + 1]) + Area(p, i + 1)
Without(p, i) == SubSeq(p, 1, i - 1) \o SubSeq(p, i + 1, Len(p))
Diag(p, i) == LET a == At(p, i - 1)  b == At(p, i + 1) IN (a[1] - b[1]) * (a[1] - b[1]) + (a[2] - b[2]) * (a[2] - b[2])
RECURSIVE Cut(_)
Cut(p) == IF Len(p) = 3 THEN <<p>>
          ELSE LET ok == {i \in DOMAIN p : Twice(At(p, i - 1), p[i], At(p, i + 1)) # 0 /\ Area(Without(p, i), 2) # 0}
                   i == CHOOSE i \in ok : \A j \in ok : Diag(p, i) <= Diag(p, j)
               IN  <<<<At(p, i - 1), p[i], At(p, i + 1)>>>> \o Cut(Without(p, i))
Triangles == UNION {ToSet(Cut(Polygon(q))) : q \in tr}
Edges(t) == {<<t[1], t[2]>>, <<t[2], t[3]>>, <<t[3], t[1]>>}
OnBorder(e) == (e[1][1] = e[2][1] /\ e[1][1] \in {0, GX}) \/ (e[1][2] = e[2][2] /\ e[1][2] \in {0, GY})
QuadsTile == MapThenSumSet(LAMBDA q : (q[2] - q[1]) * (q[4] - q[3]), tr) = GX * GY
DesignConforming == LET T == Triangles IN
    /\ \A t \in T : Twice(t[1], t[2], t[3]) > 0
    /\ MapThenSumSet(LAMBDA t : Twice(t[1], t[2], t[3]), T) = 2 * GX * GY
    /\ \A t \in T : \A e \in Edges(t) : Cardinality({s \in T : <<e[2], e[1]>> \in Edges(s)}) = IF OnBorder(e) THEN 0 ELSE 1
LinesKept == \A t \in Triangles : \A c \in Lines : ~(Min({t[i][1] : i \in 1..3}) < c /\ c < Max({t[i][1] : i \in 1..3}))

---------------------------------------------------------------------------------
(* Requests for the real code; distances in sixteenths of the length of the side *)
R(S) == RandomElement(S)
Ascending(S) == SetToSortSeq(S, <)
GenReq(x) == [shape |-> R({"flat", "flat", "graph", "graph", "coons", "revolve", "span", "sweep"}), l1 |-> R(1..12), l2 |-> R(1..12),
              c1 |-> IF R(1..3) = 1 THEN <<>> ELSE Ascending({R(1..15) : i \in 1..R(1..3)}), c2 |-> IF R(1..3) = 1 THEN <<>> ELSE Ascending({R(1..15) : i \in 1..R(1..3)}),
              size |-> R({"constant", "constant", "step", "step", "smooth", "factor", "default"}), ms |-> R(1..16), small |-> R(2..24), cut |-> R(1..3), along |-> R({1, 2, 3}), factor |-> R(1..6),
              rep |-> R(1..6), named |-> R(BOOLEAN), own |-> R(BOOLEAN), ens |-> R(BOOLEAN)]
GenInit == PrintT("B@" \o ToJson([i \in 1..GenN |-> GenReq(i)])) /\ tr = 0 /\ n = 0
GenSpec == GenInit /\ [][FALSE]_vars

---------------------------------------------------------------------------------
(* Recorded meshes.  pts: parameters of the vertices in 1/W of the sides; on: the vertex is on the
   surface; lines1, lines2: the grid lines of the corners; tris: v vertices (anti clockwise in the
   parameter plane), nb the number of the triangle on the other side of each edge (0: none), lim the
   largest extent allowed in either direction (0: none), len the lengths of its edges along the
   first and second parameter (0: not an edge along that parameter), group: its names *)
Traces == JsonDeserialize("traces.json")
Rec == Traces[tr]
W == 16384
Tri == Rec.tris[n]
Pt(i) == Rec.pts[i]
Next(i) == (i % 3) + 1
Border(a, b) == (a[1] = b[1] /\ a[1] \in {0, W}) \/ (a[2] = b[2] /\ a[2] \in {0, W})
NoOverlap == n > 0 => Twice(Pt(Tri.v[1]), Pt(Tri.v[2]), Pt(Tri.v[3])) > 0
NoHole == n > 0 => \A i \in 1..3 : LET a == Tri.v[i]  b == Tri.v[Next(i)]  m == Tri.nb[i] IN
    IF m = 0 THEN Border(Pt(a), Pt(b))
    ELSE m # n /\ \E j \in 1..3 : Rec.tris[m].v[j] = b /\ Rec.tris[m].v[Next(j)] = a /\ Rec.tris[m].nb[j] = n
OnSurface == n > 0 => \A i \in 1..3 : Rec.on[Tri.v[i]]
Crosses(c, k) == \E i, j \in 1..3 : Pt(Tri.v[i])[k] < c - 1 /\ Pt(Tri.v[j])[k] > c + 1
CornerLines == n > 0 => (\A c \in ToSet(Rec.lines1) : ~Crosses(c, 1)) /\ (\A c \in ToSet(Rec.lines2) : ~Crosses(c, 2))
WithinSize == n > 0 => \A i \in 1..3 : Tri.len[i] <= Tri.lim
Named == n > 0 => Tri.group = Rec.name
(* The whole border, once *)
RECURSIVE BorderLength(_)
BorderLength(k) == IF k = 0 THEN 0 ELSE BorderLength(k - 1) + FoldLeft(LAMBDA s, i : s + IF Rec.tris[k].nb[i] # 0 THEN 0 ELSE
    LET a == Pt(Rec.tris[k].v[i])  b == Pt(Rec.tris[k].v[Next(i)]) IN Abs(a[1] - b[1]) + Abs(a[2] - b[2]), 0, <<1, 2, 3>>)
CoversAll == n = Len(Rec.tris) => n > 0 /\ BorderLength(n) = 4 * W
TraceInit == \E t \in DOMAIN Traces : tr = t /\ n = 0
TraceSpec == TraceInit /\ [][n < Len(Rec.tris) /\ n' = n + 1 /\ UNCHANGED tr]_vars
=================================================================================
