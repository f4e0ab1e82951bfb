-------------------------------- MODULE PathMesh --------------------------------
(* What the mesh of a path must be (property C03): the elements in order walk over the path from its
   start to its end.  Used three ways:
     Design  exhaustively: the rule  N = max(ceil(length / size), 3) elements per stretch, in exact
             arithmetic, satisfies every clause for all small paths (constants below);
     Gen     random requests (path length, corners, size, order, name) for the real code;
     Trace   element lists recorded from the real code, in ticks, one element per step. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt, FiniteSetsExt, Functions

CONSTANTS MaxL, MaxMs, GenN, TraceMode

(* A request: L length, bs corners in ascending order (repeats and end points allowed), ms the mesh
   size (0: not given), f the factor (0: not given); turn: elements may be
   turned around; tol the resolution of the recording.
   An element: [a, b, (c, d: the extra points of a higher order element), on: its points are on the
   path, ref: the end of the same element in the lower order mesh] *)
Inner(r) == {x \in ToSet(r.bs) : x > 0 /\ x < r.L}
Close(x, y, tol) == x - y <= tol /\ y - x <= tol
Stops(r) == Inner(r) \union {r.L}
AtStop(r, x) == \E s \in Stops(r) : Close(s, x, r.tol)

VARIABLES tr, n, stretch     \* the trace (a record, or its number in the file), elements consumed, elements since the last corner
vars == <<tr, n, stretch>>

Traces == JsonDeserialize("traces.json")
Rec == IF TraceMode THEN Traces[tr] ELSE tr
req == Rec.req
els == Rec.els
Begin(t) == tr = t /\ n = 0 /\ stretch = 0
(* A named line may have been turned around to make its normal point outwards *)
El == LET e == els[n] IN IF req.turn /\ e.a > e.b THEN [e EXCEPT !.a = e.b, !.b = e.a, !.c = e.d, !.d = e.c] ELSE e
El0(k) == LET e == els[k] IN IF req.turn /\ e.a > e.b THEN e.a ELSE e.b
Step == /\ n < Len(els)
        /\ n' = n + 1
        /\ stretch' = IF n > 0 /\ AtStop(req, El0(n)) THEN 1 ELSE stretch + 1
        /\ UNCHANGED tr
Prev == IF n = 1 THEN 0 ELSE El0(n - 1)

NoGapNoOverlap == n > 0 => Close(El.a, Prev, req.tol)
Forward == n > 0 => El.b > El.a
CornersAreVertices == n > 0 => \A x \in Inner(req) : ~(x > El.a + req.tol /\ x < El.b - req.tol)
NotTooLong == n > 0 /\ req.ms > 0 => El.b - El.a <= req.ms + req.tol
EnoughElements == n > 0 /\ AtStop(req, El.b) => stretch >= 3 * (IF req.f > 1 THEN req.f ELSE 1)
ReachesTheEnd == n = Len(els) => n > 0 /\ Close(El.b, req.L, req.tol)
VerticesOnPath == n > 0 => El.on
ExtraPoints == n > 0 /\ req.ho => Close(3 * El.c, 2 * El.a + El.b, 4 * req.tol) /\ Close(3 * El.d, El.a + 2 * El.b, 4 * req.tol)
SameAsLinear == n > 0 /\ req.ho => Close(El.b, El.ref, req.tol)
(* The average along the path of the distance to the nearest corner or end: the sum of the squares of the stretches
   over four times the length.  In millionths of the length, the stretches in thousandths; -1: not recorded *)
Average == (TraceMode /\ n = Len(els) /\ Rec.avg >= 0) =>
    LET stops == SetToSortSeq(Stops(req) \union {0}, <)
        len(i) == (stops[i + 1] - stops[i] + req.L \div 2000) \div (req.L \div 1000)
    IN  Close(FoldFunctionOnSet(LAMBDA x, y : x + y, 0, [i \in 1..(Len(stops) - 1) |-> len(i) * len(i)], 1..(Len(stops) - 1)), 4 * Rec.avg, 2000)
Named == n = Len(els) => req.group = req.named

---------------------------------------------------------------------------------
(* Design *)
Scale == 2520
Ceil(a, b) == (a + b - 1) \div b
RECURSIVE Walk(_, _)
Walk(stops, ms) ==        \* stops: ascending sequence of distances, the first one is where we are
    IF Len(stops) < 2 THEN <<>>
    ELSE LET u0 == stops[1]
             u1 == stops[2]
             k == Max({Ceil(u1 - u0, ms), 3})
             E(j) == LET a == (u0 * Scale * k + j * (u1 - u0) * Scale) \div k
                         b == (u0 * Scale * k + (j + 1) * (u1 - u0) * Scale) \div k
                     IN  [a |-> a, b |-> b, c |-> 0, d |-> 0, on |-> TRUE, ref |-> b]
         IN  [j \in 1..k |-> E(j - 1)] \o Walk(Tail(stops), ms)
DesignInit == \E L \in 1..MaxL, ms \in 1..MaxMs : \E bs \in SUBSET (0..L) :
    LET seq == SetToSortSeq(bs \union {0, L}, <) IN
    Begin([req |-> [L |-> L * Scale, bs |-> [i \in DOMAIN seq |-> seq[i] * Scale], ms |-> ms * Scale, f |-> 0, ho |-> FALSE, turn |-> FALSE, tol |-> 1, named |-> TRUE, group |-> TRUE],
           els |-> Walk(seq, ms)])
DesignSpec == DesignInit /\ [][Step]_vars

---------------------------------------------------------------------------------
(* Requests for the real code *)
R(S) == RandomElement(S)
GenReq(x) == LET L == R(1..64) IN
    [L |-> L, bs |-> SetToSortSeq({R(0..L) : i \in 1..R(0..5)}, <), rep |-> R({0, 0, 1}), ms |-> R(0..40), msden |-> R({1, 2, 3, 7, 8}),
     f |-> R(0..4), ho |-> R(BOOLEAN), shape |-> R({"wave", "wave", "line", "circle", "arc", "polyline", "collection", "spline", "ellipse", "kinked", "swept"}), named |-> R(BOOLEAN), own |-> R(BOOLEAN), ens |-> R(BOOLEAN)]
GenInit == /\ PrintT("B@" \o ToJson([i \in 1..GenN |-> GenReq(i)]))
           /\ tr = 0 /\ n = 0 /\ stretch = 0
GenSpec == GenInit /\ [][FALSE]_vars

---------------------------------------------------------------------------------
(* Recorded meshes *)
TraceInit == \E t \in DOMAIN Traces : Begin(t)
TraceSpec == TraceInit /\ [][Step]_vars
=================================================================================
