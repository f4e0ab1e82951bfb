---------------------------------- MODULE Shell ----------------------------------
(* Shells made by sweeping the boundary of a surface (property C06).
     Design  exhaustively: a lattice surface p(u) + q(v) swept along r(w): its two caps and four sides, as
             polygons with outward orientation, form a closed chain whose signed volume is
             det(dp, dq, dr), whatever the corners of p, q and r;
     Gen     random shells for the real code, with the volume they must have;
     Trace   recorded meshes, one vertex per step: along every line through a vertex as many triangle
             edges end as start there (edges of different faces may be divided differently), and the
             volume at the end. *)
EXTENDS Geo, Json
CONSTANTS GenN, TraceMode
VARIABLES tr, n
vars == <<tr, n>>

(* Steps that keep p(u) + q(v) + r(w) injective (diagonally dominant), before a signed permutation of the axes *)
PSteps == {<<2, 0, 0>>, <<2, 1, 0>>, <<2, 0, -1>>, <<3, 1, 1>>}
QSteps == {<<0, 2, 0>>, <<0, 2, 1>>, <<-1, 2, 0>>, <<1, 3, 1>>}
RSteps == {<<0, 0, 2>>, <<1, 0, 2>>, <<0, -1, 2>>, <<1, 1, 3>>}
Sum(s) == FoldSeq(VAdd, Zero, s)
Det(a, b, c) == Dot(a, Cross(b, c))
RECURSIVE Walk(_, _)
Walk(a, s) == IF s = <<>> THEN <<a>> ELSE <<a>> \o Walk(VAdd(a, s[1]), Tail(s))

---------------------------------------------------------------------------------
(* Design: every cell of a face is two triangles *)
Quad(a, b, c, d) == <<<<a, b, c>>, <<a, c, d>>>>
Face(p, q, o) == FlattenSeq([k \in 1..(Len(p) * Len(q)) |->
    LET i == ((k - 1) \div Len(q)) + 1   j == ((k - 1) % Len(q)) + 1
        P == Walk(Zero, p)  Q == Walk(Zero, q)
        X(x, y) == VAdd(o, VAdd(P[x], Q[y]))
    IN  Quad(X(i, j), X(i + 1, j), X(i + 1, j + 1), X(i, j + 1))])
Reversed(f) == [k \in DOMAIN f |-> <<f[k][1], f[k][3], f[k][2]>>]
ShellOf(p, q, r, enclose) ==
    Reversed(Face(p, q, Zero)) \o Face(p, r, Zero) \o Reversed(Face(p, r, Sum(q))) \o Reversed(Face(q, r, Zero)) \o Face(q, r, Sum(p))
    \o (IF enclose THEN Face(p, q, Sum(r)) ELSE <<>>)
DesignInit == \E kp, kq, kr \in 1..2 : \E p \in [1..kp -> PSteps], q \in [1..kq -> QSteps], r \in [1..kr -> RSteps], e \in BOOLEAN :
    /\ (kp + kq + kr <= 4) = TRUE
    /\ tr = [p |-> p, q |-> q, r |-> r, e |-> e] /\ n = 0
DesignSpec == DesignInit /\ [][FALSE]_vars
Edges(T) == UNION {{<<T[k][1], T[k][2]>>, <<T[k][2], T[k][3]>>, <<T[k][3], T[k][1]>>} : k \in DOMAIN T}
Closed(T) == LET E == Edges(T) IN Cardinality(E) = 3 * Len(T) /\ \A e \in E : <<e[2], e[1]>> \in E
SixVolume(T) == FoldSeq(LAMBDA t, s : s + Det(t[1], t[2], t[3]), 0, T)
DesignClosed == Closed(ShellOf(tr.p, tr.q, tr.r, tr.e)) = tr.e
DesignVolume == tr.e => SixVolume(ShellOf(tr.p, tr.q, tr.r, TRUE)) = 6 * Det(Sum(tr.p), Sum(tr.q), Sum(tr.r))
OnlyTheCapIsAbsent == LET T == ShellOf(tr.p, tr.q, tr.r, FALSE)  C == Face(tr.p, tr.q, Sum(tr.r)) IN
    /\ {e \in Edges(T) : <<e[2], e[1]>> \notin Edges(T)} = {<<e[2], e[1]>> : e \in {x \in Edges(C) : <<x[2], x[1]>> \notin Edges(C)}}

---------------------------------------------------------------------------------
(* Requests.  vol: 1000 times the volume; for a revolved base in a half plane through the axis it is the
   angle times the integral of the radius over the base (Pappus) *)
R(S) == RandomElement(S)
Some(S) == [i \in 1..R({1, 1, 2}) |-> R(S)]
(* signed permutation: image of axis i is s[i] * axis a[i] *)
Perms == {<<a, b, c>> \in Axis \X Axis \X Axis : a # b /\ b # c /\ a # c}
(* twice the moment of the base p + q in the (radius, height) plane starting at radius r0 *)
Cell(P, Q, i, j) == LET d == VSub(P[i + 1], P[i])  e == VSub(Q[j + 1], Q[j])
                        r == P[i][1] + P[i + 1][1] + Q[j][1] + Q[j + 1][1]     \* twice the mean radius of the cell
                    IN  (d[1] * e[2] - d[2] * e[1]) * r
Moment(p, q, r0) == LET P == Walk(<<r0, 0, 0>>, p)  Q == Walk(Zero, q) IN
    FoldSeq(+, 0, [k \in 1..(Len(p) * Len(q)) |-> Cell(P, Q, ((k - 1) \div Len(q)) + 1, ((k - 1) % Len(q)) + 1)])
PRev == {<<2, 0, 0>>, <<2, 1, 0>>, <<3, -1, 0>>}
QRev == {<<0, 2, 0>>, <<1, 2, 0>>, <<0, 3, 0>>}
GenReq(x) ==
    LET kind == R({"prism", "prism", "prism", "revolve", "revolve", "box", "disk", "torus"})
        p == Some(IF kind = "prism" THEN PSteps ELSE PRev)
        q == Some(IF kind = "prism" THEN QSteps ELSE QRev)
        r == Some(RSteps)
        r0 == R(1..3)
        ang == R({2, 3, 4, 8, 11, 12, 15})
        w == [i \in Axis |-> R({-3, -2, -1, 1, 2, 3})]
        rad == R(1..3)
    IN  [kind |-> kind, p |-> p, q |-> q, r |-> r, perm |-> R(Perms), sign |-> [i \in Axis |-> R({-1, 1})], at |-> [i \in Axis |-> R(-2..2)],
         r0 |-> r0, ang |-> ang, axis |-> R(Axis), w |-> w, rad |-> rad, enclose |-> R({TRUE, TRUE, FALSE}), ms |-> R(2..12), sized |-> R({TRUE, TRUE, FALSE}), named |-> R({1, 2}),
         vol |-> CASE kind = "prism" -> 1000 * Abs(Det(Sum(p), Sum(q), Sum(r)))
                   [] kind = "box" -> 1000 * Abs(w[1] * w[2] * w[3])
                   [] kind = "revolve" -> (Moment(p, q, r0) * ang * 3927) \div 20         \* 1000 * (ang pi / 8) * moment / 2
                   [] kind = "disk" -> (31416 * rad * rad * Abs(w[3])) \div 10                \* pi R^2 h
                   [] kind = "torus" -> (31416 * rad * rad * (rad + r0) * ang * 39) \div 1000, \* angle * distance * pi R^2
         exact |-> kind \in {"prism", "box"}]
GenInit == PrintT("B@" \o ToJson([i \in 1..GenN |-> GenReq(i)])) /\ tr = 0 /\ n = 0
GenSpec == GenInit /\ [][FALSE]_vars

---------------------------------------------------------------------------------
(* Recorded meshes.  stars: per vertex the directions from it of the edges that start (out) and end (inc)
   there; vol, sum of the signed volumes; area, opened, cap: the vector area of the mesh, of the mesh without the far
   cap, and of the far cap alone *)
Traces == JsonDeserialize("traces.json")
Rec == Traces[tr]
Star == Rec.stars[n]
Size(a) == Max({Abs(a[1]), Abs(a[2]), Abs(a[3])})
Parallel(a, b) == Size(Cross(a, b)) <= 3 * (Size(a) + Size(b))
Count(seq, d) == Cardinality({i \in DOMAIN seq : Parallel(seq[i], d)})
EdgesCancel == n > 0 /\ Rec.chart => \A d \in ToSet(Star.out) \union ToSet(Star.inc) : Count(Star.out, d) = Count(Star.inc, d)
AtEnd == n = Len(Rec.stars)
Tol == IF Rec.exact THEN 2 + Rec.req.vol \div 100000 ELSE Rec.req.vol \div 16
Volume == AtEnd => Abs(Abs(Rec.vol) - Rec.req.vol) <= Tol
Outward == AtEnd => Rec.vol > 0
(* vector areas (times 1000): zero for the closed shell; without the far cap what is missing is the cap, of vector area cap *)
Small(a, t) == Size(a) <= t
ClosedArea == AtEnd => Small(Rec.area, Rec.atol)
FarCapAbsent == AtEnd /\ ~Rec.req.enclose => /\ ~Small(Rec.cap, 3 * Rec.atol)
                                             /\ Small(VAdd(Rec.opened, Rec.cap), Rec.atol) \/ Small(VSub(Rec.opened, Rec.cap), Rec.atol)
NotEmpty == AtEnd => n > 3
TraceInit == \E t \in DOMAIN Traces : tr = t /\ n = 0
TraceSpec == TraceInit /\ [][n < Len(Rec.stars) /\ n' = n + 1 /\ UNCHANGED tr]_vars
=================================================================================
