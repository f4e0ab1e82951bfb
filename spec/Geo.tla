---------------------------------- MODULE Geo ----------------------------------
(* Exact geometry shared by the specifications: integer vectors and matrices, signed permutation
   matrices (rotations by quarter turns, mirrors), rationals, and lengths of the form
   s + q*pi/8 + f*phi with phi = atan2(4, 3), which is what paths made of lattice lines and of arcs
   through Pythagorean points need. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

Vec(x, y, z) == <<x, y, z>>
Zero == <<0, 0, 0>>
VAdd(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
VSub(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
VScale(k, a) == <<k * a[1], k * a[2], k * a[3]>>
VNeg(a) == VScale(-1, a)
Dot(a, b) == a[1]*b[1] + a[2]*b[2] + a[3]*b[3]
Cross(a, b) == <<a[2]*b[3] - a[3]*b[2], a[3]*b[1] - a[1]*b[3], a[1]*b[2] - a[2]*b[1]>>
Abs(n) == IF n < 0 THEN -n ELSE n
Axis == {1, 2, 3}
Unit(i) == [j \in 1..3 |-> IF i = j THEN 1 ELSE 0]

(* Matrices are sequences of rows *)
MatVec(M, v) == <<Dot(M[1], v), Dot(M[2], v), Dot(M[3], v)>>
Col(M, j) == <<M[1][j], M[2][j], M[3][j]>>
MatMul(A, B) == [i \in 1..3 |-> <<Dot(A[i], Col(B, 1)), Dot(A[i], Col(B, 2)), Dot(A[i], Col(B, 3))>>]
Identity == <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>

(* Counter clockwise quarter turn around an axis, seen against the axis (right handed) *)
Quarter(axis) == CASE axis = 1 -> <<<<1, 0, 0>>, <<0, 0, -1>>, <<0, 1, 0>>>>
                   [] axis = 2 -> <<<<0, 0, 1>>, <<0, 1, 0>>, <<-1, 0, 0>>>>
                   [] axis = 3 -> <<<<0, -1, 0>>, <<1, 0, 0>>, <<0, 0, 1>>>>
RECURSIVE Turns(_, _)
Turns(axis, k) == IF k = 0 THEN Identity ELSE MatMul(Quarter(axis), Turns(axis, k - 1))
(* Mirroring in the coordinate plane perpendicular to an axis *)
MirrorM(axis) == [i \in 1..3 |-> [j \in 1..3 |-> IF i # j THEN 0 ELSE IF i = axis THEN -1 ELSE 1]]

(* One of S when simulating, all of S when checking exhaustively *)
CONSTANT Sim
Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S

---------------------------------------------------------------------------------
(* Lengths <<s, q, f>> = s + q*pi/8 + f*phi *)
L0 == <<0, 0, 0>>
LAdd(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
LSub(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
LScale(k, a) == <<k * a[1], k * a[2], k * a[3]>>
Micro(a) == a[1] * 1000000 + a[2] * 392699 + a[3] * 927295      \* to order lengths
LLess(a, b) == a # b /\ Micro(a) < Micro(b)
LLeq(a, b) == a = b \/ Micro(a) < Micro(b)
LSum(seq) == FoldSeq(LAdd, L0, seq)
SortL(S) == SetToSortSeq(S, LLess)
=================================================================================
