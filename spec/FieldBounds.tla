-------------------------------- MODULE FieldBounds --------------------------------
(* Field bounds (property C22).  State: for every field its bounds (none at first).  Coordinates are integers (half millimetres);
   Inf stands for infinite.  Setting bounds replaces those of one field.  A field is felt at a point strictly within its bounds.  Replayed on real fields
   that share their charges; flights through them are recorded and validated step by step. *)
EXTENDS Geo, Json
CONSTANTS NFields, Lo, Hi, Inf, Kinds, Forms, Starts, MaxOps, TraceMode, Emit
VARIABLES bounds, kind, ops, tr, n
vars == <<bounds, kind, ops, tr, n>>

None == <<>>
Inside(b, p) == b = None \/ \A i \in Axis : b[i][1] < p[i] /\ p[i] < b[i][2]
Intervals == {<<a, b>> : a \in Lo..Hi, b \in Lo..Hi}
Boxes == Intervals \X Intervals \X Intervals

(* Exhaustive: one axis at a time suffices, as the axes are independent *)
Line(p, d, k) == [i \in Axis |-> p[i] + k * d[i]]
Small == {<<a, b>> : a \in -1..1, b \in -1..1}
SmallBoxes == {<<a, b, <<-1, 1>>>> : a \in Small, b \in Small} \cup {<<<<-1, 1>>, a, b>> : a \in Small, b \in Small}
Init == bounds \in [1..NFields -> {None} \cup SmallBoxes] /\ ops = <<>> /\ kind = "" /\ tr = 0 /\ n = 0
SetBounds == \E f \in 1..NFields, b \in SmallBoxes : bounds' = [bounds EXCEPT ![f] = b] /\ UNCHANGED <<ops, kind, tr, n>>
(* A straight line is within bounds for one uninterrupted stretch: a particle enters and leaves once *)
Convex == \A f \in 1..NFields : \A p \in {<<x, y, -2>> : x \in -1..1, y \in -1..1}, d \in {<<0, 0, 1>>, <<1, 0, 1>>, <<0, -1, 1>>} :
             \A j \in 0..4, k \in 0..4, l \in 0..4 : j < k /\ k < l /\ Inside(bounds[f], Line(p, d, j)) /\ Inside(bounds[f], Line(p, d, l)) => Inside(bounds[f], Line(p, d, k))
EmptyBox == \A f \in 1..NFields : (bounds[f] # None /\ \E i \in Axis : bounds[f][i][1] >= bounds[f][i][2]) => \A x \in -2..2, y \in -2..2 : ~Inside(bounds[f], <<x, y, 0>>)
OthersKept == [][\E f \in 1..NFields : \A g \in 1..NFields : g # f => bounds'[g] = bounds[g]]_bounds

---------------------------------------------------------------------------------
(* Histories *)
RandomInterval(i) == IF RandomElement(1..8) = 1 THEN <<-Inf, RandomElement(Lo..Hi)>> ELSE IF RandomElement(1..8) = 1 THEN <<RandomElement(Lo..Hi), Inf>> ELSE IF RandomElement(1..6) = 1 THEN <<RandomElement(Lo..Hi), RandomElement(Lo..Hi)>>
                  ELSE <<RandomElement(Lo..0), RandomElement(1..Hi)>>
OnFace(b, p) == IF b = None \/ RandomElement(1..2) = 1 THEN p ELSE LET i == RandomElement(Axis) IN LET c == RandomElement({b[i][1], b[i][2]}) IN IF Abs(c) = Inf THEN p ELSE [p EXCEPT ![i] = c]
InitSim == bounds = [f \in 1..NFields |-> None] /\ kind = "" /\ ops = <<>> /\ tr = 0 /\ n = 0
Choose == kind = "" /\ kind' = RandomElement(Kinds) /\ UNCHANGED <<bounds, ops, tr, n>>
Set(f) == \E b \in {<<RandomInterval(1), RandomInterval(2), RandomInterval(3)>>}, w \in {RandomElement(Forms)} :
            /\ bounds' = [bounds EXCEPT ![f] = b] /\ ops' = Append(ops, [op |-> "set", f |-> f, box |-> b, form |-> w, change |-> RandomElement(1..2) = 1])
Probe(f) == \E p0 \in {<<RandomElement((Lo - 1)..(Hi + 1)), RandomElement((Lo - 1)..(Hi + 1)), RandomElement((Lo - 1)..(Hi + 1))>>} : \E p \in {OnFace(bounds[f], p0)} :
            /\ ops' = Append(ops, [op |-> "probe", f |-> f, p |-> p, inside |-> Inside(bounds[f], p)]) /\ UNCHANGED bounds
(* Now and then exactly along a face *)
Off(f, i) == IF bounds[f] # None /\ RandomElement(1..3) = 1 THEN LET c == RandomElement({bounds[f][i][1], bounds[f][i][2]}) IN IF Abs(c) <= 5 THEN c ELSE 0 ELSE RandomElement(-2..2)
Tilt(f) == IF RandomElement(1..2) = 1 THEN 0 ELSE RandomElement(Starts)
Fly(f) == \E axis \in {RandomElement(Axis)}, s \in {RandomElement({-1, 1})} : \E a \in {Off(f, IF axis = 1 THEN 2 ELSE 1)}, b \in {Off(f, IF axis = 3 THEN 2 ELSE 3)}, c \in {Tilt(f)}, e \in {Tilt(f)} :
            /\ ops' = Append(ops, [op |-> "fly", f |-> f, axis |-> axis, sign |-> s, off |-> <<a, b>>, tilt |-> <<c, e>>, box |-> bounds[f]]) /\ UNCHANGED bounds
Step == Len(ops) < MaxOps /\ \E f \in {RandomElement(1..NFields)}, w \in {RandomElement(1..10)} :
            /\ CASE w <= 3 -> Set(f) [] w <= 7 -> Probe(f) [] OTHER -> Fly(f)
            /\ UNCHANGED <<kind, tr, n>>
NextSim == IF kind = "" THEN Choose ELSE Step
Done == Len(ops) = MaxOps => (~Emit \/ PrintT("B@" \o ToJson([kind |-> kind, ops |-> ops])))

---------------------------------------------------------------------------------
(* Flights: every event is a step of the tracer from a to b (in microns; steps are at most ten), with the change of the velocity and the
   deviation from a straight line in units of rounding, and the difference with a step in the unbounded field in percent of the tolerance.
   Box in half millimetres *)
Traces == JsonDeserialize("traces.json")
Rec == Traces[tr]
Ev == Rec.ev
TraceInit == tr \in DOMAIN Traces /\ n = 0 /\ bounds = 0 /\ kind = 0 /\ ops = 0
TraceNext == n < Len(Ev) /\ n' = n + 1 /\ UNCHANGED <<bounds, kind, ops, tr>>
Is == TraceMode /\ n > 0
E == Ev[n]
Margin == 2
Low(i) == 500 * Rec.box[i][1]
High(i) == 500 * Rec.box[i][2]
(* (face: both ends lie exactly in the same face, which is outside) *)
Outward == Rec.box # None /\ \E i \in Axis : \/ E.face \/ (E.a[i] <= Low(i) - Margin /\ E.b[i] <= Low(i) - Margin)
                                          \/ (E.a[i] >= High(i) + Margin /\ E.b[i] >= High(i) + Margin)
                                          \/ Low(i) >= High(i)
Inward == Rec.box = None \/ \A i \in Axis : /\ Low(i) + Margin <= E.a[i] /\ E.a[i] <= High(i) - Margin
                                                  /\ Low(i) + Margin <= E.b[i] /\ E.b[i] <= High(i) - Margin
StraightOutside == Is /\ Outward => E.turn <= 2 /\ E.bend <= 100
FullInside == Is /\ Inward => E.pos <= 100 /\ E.vel <= 100
=====================================================================================
