------------------------------- MODULE Orientation -------------------------------
(* Normals of closed electrodes (property C10).
     Design  the way orientations are made to agree (spread from a first element to neighbours that have an
             edge in common, then turn everything around if the enclosed volume is negative), exhaustively:
             all initial orientations of a tetrahedron, an octahedron, a bipyramid and a closed contour, in every
             order of spreading;
     Gen     random bodies for the real code: solids made of unit cubes whose faces are subdivided
             differently, and contours of polyominoes in the (x, z) plane (closed, or open at the axis x = 0),
             in named groups, with a sequence of operations and the orientation every body must have after
             each of them: given[b] (as given, apart from turning everything around) or a sign. *)
EXTENDS Geo, Json, Randomization
CONSTANTS GenN
VARIABLES shape, flip, seen
vars == <<shape, flip, seen>>

(* Outward oriented reference shapes: vertices are positions *)
A1 == <<2, 0, 0>>  A2 == <<-2, 0, 0>>  B1 == <<0, 2, 0>>  B2 == <<0, -2, 0>>  C1 == <<0, 0, 2>>  C2 == <<0, 0, -2>>
Octahedron == {<<A1, B1, C1>>, <<B1, A2, C1>>, <<A2, B2, C1>>, <<B2, A1, C1>>, <<B1, A1, C2>>, <<A2, B1, C2>>, <<B2, A2, C2>>, <<A1, B2, C2>>}
Tetrahedron == {<<A1, B1, C1>>, <<A2, C1, B1>>, <<A1, C1, A2>>, <<A1, A2, B1>>}
Bipyramid == {<<A1, B1, C1>>, <<B1, A2, C1>>, <<A2, A1, C1>>, <<B1, A1, C2>>, <<A2, B1, C2>>, <<A1, A2, C2>>}
Contour == {<<C2, A1>>, <<A1, C1>>, <<C1, A2>>, <<A2, C2>>}
Shapes == {Octahedron, Tetrahedron, Bipyramid, Contour}
Turn(e) == IF Len(e) = 2 THEN <<e[2], e[1]>> ELSE <<e[1], e[3], e[2]>>
Now(e) == IF e \in flip THEN Turn(e) ELSE e
LeavesIt == <<9, 9, 9>>  EntersIt == <<8, 8, 8>>
(* directed edges of a triangle; a line leaves its first and enters its second vertex *)
Out(e) == IF Len(e) = 2 THEN {<<e[1], LeavesIt>>, <<e[2], EntersIt>>} ELSE {<<e[1], e[2]>>, <<e[2], e[3]>>, <<e[3], e[1]>>}
Opposite(d) == IF d[2] = LeavesIt THEN <<d[1], EntersIt>> ELSE IF d[2] = EntersIt THEN <<d[1], LeavesIt>> ELSE <<d[2], d[1]>>
Touching(e, f) == e # f /\ (Out(e) \union {Opposite(d) : d \in Out(e)}) \intersect Out(f) # {}
Agree(e, f) == {Opposite(d) : d \in Out(e)} \intersect Out(f) # {}
DesignInit == shape \in Shapes /\ flip \in SUBSET shape /\ \E e \in shape : seen = {e}
Spread == \E e \in seen, f \in shape \ seen :
    /\ Touching(e, f)
    /\ flip' = IF Agree(Now(e), Now(f)) THEN flip ELSE (flip \ {f}) \union ({f} \ flip)
    /\ seen' = seen \union {f} /\ UNCHANGED shape
(* six times the volume, or twice the area, enclosed; times a sign *)
Enclosed(e) == LET x == Now(e) IN IF Len(x) = 2 THEN x[1][1] * x[2][3] - x[2][1] * x[1][3] ELSE Dot(x[1], Cross(x[2], x[3]))
RECURSIVE SumOf(_)
SumOf(S) == IF S = {} THEN 0 ELSE LET e == CHOOSE e \in S : TRUE IN Enclosed(e) + SumOf(S \ {e})
Outwards == /\ seen = shape /\ SumOf(shape) < 0
            /\ flip' = shape \ flip /\ UNCHANGED <<shape, seen>>
DesignSpec == DesignInit /\ [][Spread \/ Outwards]_vars /\ WF_vars(Spread \/ Outwards)
SeenAgree == \A e, f \in seen : Touching(e, f) => Agree(Now(e), Now(f))
AllOrNone == seen = shape => flip \in {{}, shape}
EndsOutward == <>[](seen = shape /\ flip = {})

---------------------------------------------------------------------------------
R(S) == RandomElement(S)
Box == (0..2) \X (0..2) \X (0..2)
E(a) == Unit(a)
Faces(S) == {<<c, a, s>> \in S \X Axis \X {-1, 1} : VAdd(c, VScale(s, E(a))) \notin S}
(* never two cubes that only have an edge in common *)
Manifold(S) == \A c \in S : \A a, b \in Axis : \A s, r \in {-1, 1} :
    (a < b /\ VAdd(VAdd(c, VScale(s, E(a))), VScale(r, E(b))) \in S) =>
        (VAdd(c, VScale(s, E(a))) \in S \/ VAdd(c, VScale(r, E(b))) \in S)
(* nor, when bodies are to be well apart, a vertex *)
Next3(S) == {x \in Box \ S : \E a \in Axis, s \in {-1, 1} : VAdd(x, VScale(s, E(a))) \in S}
RECURSIVE Grow(_, _, _)
Grow(S, k, touch) ==
    IF k = 0 THEN S
    ELSE LET cand == IF R(1..4) = 1 \/ Next3(S) = {} THEN Box \ S ELSE Next3(S)
             x == R(cand)
             T == S \union {x}
             apart == \A c \in S : (\E i \in Axis : Abs(c[i] - x[i]) > 1) \/ VSub(c, x) \in {VScale(s, E(a)) : s \in {-1, 1}, a \in Axis} \/ x \in Next3(S)
         IN  IF Manifold(T) /\ (touch \/ apart) THEN Grow(T, k - 1, touch) ELSE Grow(S, k - 1, touch)
RECURSIVE Closure(_, _)
Closure(C, S) == LET D == C \union {x \in S : \E a \in Axis, s \in {-1, 1} : VAdd(x, VScale(s, E(a))) \in C} IN IF D = C THEN C ELSE Closure(D, S)
Bodies(S) == {Closure({c}, S) : c \in S}

(* Triangles of a face, 4 units along an edge, outward *)
Tangents(a, s) == LET b == (a % 3) + 1  c == ((a + 1) % 3) + 1 IN IF s = 1 THEN <<E(b), E(c)>> ELSE <<E(c), E(b)>>
Corner(f) == VAdd(VScale(4, f[1]), IF f[3] = 1 THEN VScale(4, E(f[2])) ELSE Zero)
FaceTriangles(f, n) ==
    LET t == Tangents(f[2], f[3])  w == 4 \div n
        P(i, j) == VAdd(Corner(f), VAdd(VScale(w * i, t[1]), VScale(w * j, t[2])))
        cell(i, j) == IF R(1..2) = 1 THEN <<<<P(i, j), P(i + 1, j), P(i + 1, j + 1)>>, <<P(i, j), P(i + 1, j + 1), P(i, j + 1)>>>>
                      ELSE <<<<P(i, j), P(i + 1, j), P(i, j + 1)>>, <<P(i + 1, j), P(i + 1, j + 1), P(i, j + 1)>>>>
    IN  FlattenSeq([k \in 1..(n * n) |-> cell((k - 1) \div n, (k - 1) % n)])
BodyTriangles(B, mode) == FlattenSeq([k \in 1..Cardinality(Faces(B)) |-> FaceTriangles(SetToSeq(Faces(B))[k], IF mode = 3 THEN R({1, 2}) ELSE mode)])

(* Contours: counter clockwise in (x, z) *)
Cells2 == (0..3) \X (0..3)
Sides(c) == LET x == c[1]  z == c[2] IN {<<<<x, z>>, <<x + 1, z>>>>, <<<<x + 1, z>>, <<x + 1, z + 1>>>>, <<<<x + 1, z + 1>>, <<x, z + 1>>>>, <<<<x, z + 1>>, <<x, z>>>>}
Border(S) == LET all == UNION {Sides(c) : c \in S} IN {e \in all : <<e[2], e[1]>> \notin all}
Manifold2(S) == \A c \in S : \A s \in {-1, 1} : <<c[1] + 1, c[2] + s>> \in S => (<<c[1] + 1, c[2]>> \in S \/ <<c[1], c[2] + s>> \in S)
Next2(S) == {x \in Cells2 \ S : \E d \in {<<1, 0>>, <<-1, 0>>, <<0, 1>>, <<0, -1>>} : <<x[1] + d[1], x[2] + d[2]>> \in S}
RECURSIVE Grow2(_, _)
Grow2(S, k) == IF k = 0 THEN S ELSE LET T == S \union {R(Next2(S))} IN IF Manifold2(T) THEN Grow2(T, k - 1) ELSE Grow2(S, k - 1)
(* at most one interval of the axis is touched, so that an open contour is one piece *)
AxisZ(S) == {c[2] : c \in {x \in S : x[1] = 0}}
OneInterval(S) == LET Z == AxisZ(S) IN Z = {} \/ Cardinality(Z) = Max(Z) - Min(Z) + 1
At2(p) == <<4 * p[1], 0, 4 * p[2]>>
Divide(e, n) == LET a == At2(e[1])  b == At2(e[2])  d == VSub(b, a) IN
    [k \in 1..n |-> <<VAdd(a, <<(d[1] * (k - 1)) \div n, 0, (d[3] * (k - 1)) \div n>>), VAdd(a, <<(d[1] * k) \div n, 0, (d[3] * k) \div n>>)>>]
ContourLines(S, open) == LET B == SetToSeq({e \in Border(S) : ~(open /\ e[1][1] = 0 /\ e[2][1] = 0)}) IN FlattenSeq([k \in DOMAIN B |-> Divide(B[k], R({1, 2, 4}))])

(* Operations *)
Names == {"a", "b"}
RECURSIVE Sign(_, _, _)
Sign(names, ops, s) == \* s = <<is it as given, sign>>
    IF ops = <<>> THEN <<>>
    ELSE LET o == ops[1]
             r == CASE o.op = "flip" -> <<s[1], -s[2]>>
                    [] o.op = "rebuild" -> IF names # {} THEN <<FALSE, 1>> ELSE s
                    [] o.op = "keep" -> s
                    [] o.op = "inward" -> IF o.g \in names THEN <<FALSE, -1>> ELSE s
                    [] o.op = "outward" -> IF o.g \in names THEN <<FALSE, 1>> ELSE s
         IN  <<r>> \o Sign(names, Tail(ops), r)
GenReq(x) ==
    LET mode == IF R(1..12) = 1 THEN 4 ELSE R({1, 2, 3})
        S == Grow({R(Box)}, R(0..8), R(1..2) = 1)
        bodies == SetToSeq(Bodies(S))
        poly == Grow2({<<R(0..2), R(0..3)>>}, R(0..8))
        open == OneInterval(poly) /\ R(1..2) = 1
        which == R({"t", "t", "l", "both"})
        tri == IF which = "l" THEN <<>> ELSE [k \in DOMAIN bodies |-> [k |-> "t", names |-> R(SUBSET Names), els |-> BodyTriangles(bodies[k], mode)]]
        line == IF which = "t" THEN <<>> ELSE <<[k |-> "l", names |-> R(SUBSET Names), els |-> ContourLines(poly, open)]>>
        parts == tri \o line
        all == UNION ({{}} \union {parts[k].names : k \in DOMAIN parts})
        op(o) == [op |-> o, g |-> IF all = {} THEN "a" ELSE R(all)]
        first == IF R(1..3) = 1 THEN "keep" ELSE "rebuild"
        ops == <<op(first)>> \o [i \in 1..5 |-> LET o == op(R({"inward", "inward", "outward", "flip", "rebuild", "keep"})) IN IF all = {} /\ o.op \in {"inward", "outward"} THEN op("flip") ELSE o]
    IN  [parts |-> parts, ops |-> ops, order6 |-> R(1..3) = 1, order4 |-> R(1..3) = 1, mode |-> mode, open |-> open, shuffle |-> R(1..1000000),
         sign |-> [k \in DOMAIN parts |-> Sign(parts[k].names, ops, <<TRUE, 1>>)]]
GenInit == PrintT("B@" \o ToJson([i \in 1..GenN |-> GenReq(i)])) /\ shape = {} /\ flip = {} /\ seen = {}
GenSpec == GenInit /\ [][FALSE]_vars
=================================================================================
