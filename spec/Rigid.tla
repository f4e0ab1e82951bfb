---------------------------------- MODULE Rigid ----------------------------------
(* Rigid transformations of geometric objects (property C04; its maps are also what C17 transforms
   geometries with).  An object is known by the map that takes the points of the object it was made
   from to its own points: x -> (M x + b) / den, exact integers.  Angles are multiples of a quarter
   turn, zero, or Pythagorean (atan2(4, 3) and so on), so the matrices are rational.
   State: a heap of objects, every one made from an older one by one operation. *)
EXTENDS Geo, Json
CONSTANTS Depth, Origins, Kinds, MaxDen, Emit
VARIABLES heap, kind, hist
vars == <<heap, kind, hist>>

(* Rotation matrices [m, r]: m / r; an angle is <<quarters, p>> = quarters*pi/2 + p*atan2(4, 3) *)
RECURSIVE Rot(_, _)
Pyth(axis, p) == LET c == 3  s == 4 * p IN
    CASE axis = 1 -> <<<<5, 0, 0>>, <<0, c, -s>>, <<0, s, c>>>>
      [] axis = 2 -> <<<<c, 0, s>>, <<0, 5, 0>>, <<-s, 0, c>>>>
      [] axis = 3 -> <<<<c, -s, 0>>, <<s, c, 0>>, <<0, 0, 5>>>>
Rot(axis, a) == IF a[2] = 0 THEN [m |-> Turns(axis, a[1] % 4), r |-> 1]
                ELSE [m |-> MatMul(Turns(axis, a[1] % 4), Pyth(axis, a[2])), r |-> 5]
Angles == {<<q, 0>> : q \in {-2, -1, 0, 1, 2, 3}} \union {<<q, p>> : q \in {0, 1}, p \in {-1, 1}}

Id == [m |-> Identity, b |-> Zero, den |-> 1, mirrors |-> 0]
Moved(f, d) == [f EXCEPT !.b = VAdd(@, VScale(f.den, d))]
Rotated(f, axis, a, o) ==
    LET R == Rot(axis, a) IN
    [m |-> MatMul(R.m, f.m), den |-> f.den * R.r, mirrors |-> f.mirrors,
     b |-> VAdd(MatVec(R.m, f.b), VSub(VScale(f.den * R.r, o), VScale(f.den, MatVec(R.m, o))))]
Mirrored(f, axis) == [f EXCEPT !.m = MatMul(MirrorM(axis), @), !.b = MatVec(MirrorM(axis), @), !.mirrors = 1 - @]

Push(op, args, f) == /\ heap' = Append(heap, f)
                     /\ hist' = Append(hist, [op |-> op, args |-> args, map |-> f])
                     /\ UNCHANGED kind
Some == IF Sim THEN {RandomElement(DOMAIN heap \union (IF Len(heap) = 1 THEN {} ELSE {Len(heap), Len(heap) - 1}))} ELSE DOMAIN heap
Move == Len(hist) < Depth /\ \E i \in Some, d \in Pick(Origins) : Push("move", [i |-> i, d |-> d], Moved(heap[i], d))
Rotate == Len(hist) < Depth /\ \E i \in Some, ax \in Pick(Axis), a \in Pick(Angles), o \in Pick(Origins) :
            /\ heap[i].den * Rot(ax, a).r <= MaxDen
            /\ Push("rotate", [i |-> i, axis |-> ax, angle |-> a, origin |-> o], Rotated(heap[i], ax, a, o))
Mirror == Len(hist) < Depth /\ \E i \in Some, ax \in Pick(Axis) : Push("mirror", [i |-> i, axis |-> ax], Mirrored(heap[i], ax))
Init == heap = <<Id>> /\ hist = <<>> /\ kind = ""
Make == kind = "" /\ kind' \in Pick(Kinds) /\ UNCHANGED <<heap, hist>>
Next == IF kind = "" THEN Make ELSE Move \/ Rotate \/ Mirror
Spec == Init /\ [][Next]_vars

Det(M) == Dot(M[1], Cross(M[2], M[3]))
Transpose(M) == <<Col(M, 1), Col(M, 2), Col(M, 3)>>
Orthogonal == \A i \in DOMAIN heap : LET f == heap[i] IN
    MatMul(f.m, Transpose(f.m)) = [r \in 1..3 |-> [c \in 1..3 |-> IF r = c THEN f.den * f.den ELSE 0]]
Handed == \A i \in DOMAIN heap : LET f == heap[i] IN Det(f.m) = (IF f.mirrors = 1 THEN -1 ELSE 1) * f.den * f.den * f.den
(* the point a rotation turns around stays where it is; turning back undoes it *)
At(f, p) == VAdd(MatVec(f.m, p), f.b)
FixedPoint == hist = <<>> \/ LET h == Last(hist) IN
    h.op # "rotate" \/ At(Rotated(Id, h.args.axis, h.args.angle, h.args.origin), h.args.origin) = VScale(Rot(h.args.axis, h.args.angle).r, h.args.origin)
TurnBack == hist = <<>> \/ LET h == Last(hist)
                               back == Rotated(heap[Len(heap)], h.args.axis, <<-h.args.angle[1], -h.args.angle[2]>>, h.args.origin)
                           IN  h.op # "rotate" \/ LET f == heap[h.args.i] IN
                               back.m = [r \in 1..3 |-> VScale(back.den \div f.den, f.m[r])] /\ back.b = VScale(back.den \div f.den, f.b)
MirrorTwice == hist = <<>> \/ LET h == Last(hist) IN h.op # "mirror" \/ Mirrored(heap[Len(heap)], h.args.axis) = heap[h.args.i]
Done == Len(hist) = Depth => (~Emit \/ PrintT("B@" \o ToJson([kind |-> kind, ops |-> hist])))
=================================================================================
