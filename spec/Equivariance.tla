------------------------------- MODULE Equivariance -------------------------------
(* Solved fields transform with the geometry (property C17).  State: a scene and what has been done to it: an exact
   map of space (rigid motions of Rigid.tla and uniform scalings), a factor on all sources, a permutation of the names
   and of the elements.  The specification prescribes how potentials and fields of the original carry over. *)
EXTENDS Rigid, Scenes
CONSTANTS SceneKinds, Most, Vals
scene == kind
(* heap[1] is the present state *)
now == heap[1]
Start == [map |-> Id, scale |-> <<1, 1>>, factor |-> <<1, 1>>, names |-> <<1, 2, 3, 4, 5, 6>>, unit |-> 0]
Cleared == kind = ""
RMul(a, b) == <<a[1] * b[1], a[2] * b[2]>>
Scaled(f, s) == [f EXCEPT !.m = [i \in 1..3 |-> VScale(s[1], @[i])], !.b = VScale(s[1], @), !.den = @ * s[2]]
(* Potentials are multiplied by the factor, fields by factor / scale and turned with the map.  Mirroring keeps the sense
   of a current around the axis, so magnetic fields are mirrored with the opposite sign, and so are given the potentials *)
(* The lengths are in units of 2^unit (meters, or millimeters and micrometers in meters); the map is in that unit *)
Law(x) == [unit |-> x.unit, potential |-> x.factor, field |-> [num |-> x.factor[1] * x.scale[2] * x.scale[2], den |-> x.factor[2] * x.scale[1] * x.scale[1]],   \* times map.m / map.den, which contains the scale once
           magnetic |-> IF x.map.mirrors = 1 THEN -1 ELSE 1]
Largest(f) == Max({Abs(f.m[i][j]) : i \in 1..3, j \in 1..3} \cup {Abs(f.b[i]) : i \in 1..3})
Apply(op, args, x) == /\ x.map.den <= MaxDen /\ Largest(x.map) <= 100000 /\ Max({x.scale[1], x.scale[2], x.factor[2]}) <= 64 /\ Abs(x.factor[1]) <= 64 /\ heap' = <<x>>
                      /\ hist' = Append(hist, [op |-> op, args |-> args, state |-> x, law |-> Law(x)]) /\ UNCHANGED kind
Radial == scene.sym = "radial"
Shift == \E d \in Pick(IF Radial THEN {<<0, 0, z>> : z \in {-7, -2, 3, 11}} ELSE Origins) : Apply("move", [d |-> d], [now EXCEPT !.map = Moved(@, d)])
(* In radial symmetry turning around the axis does nothing to the geometry, only to the place of evaluation *)
Turn == \E ax \in Pick(IF Radial THEN {3} ELSE Axis), a \in Pick(Angles), o \in Pick(IF Radial THEN {Zero} ELSE Origins) :
    Apply("rotate", [axis |-> ax, angle |-> a, origin |-> o], [now EXCEPT !.map = Rotated(@, ax, a, o)])
Reflect == \E ax \in Pick(IF Radial THEN {3} ELSE Axis) : Apply("mirror", [axis |-> ax], [now EXCEPT !.map = Mirrored(@, ax)])
Resize == \E s \in Pick({<<2, 1>>, <<1, 2>>, <<3, 2>>, <<1, 8>>, <<16, 1>>}) : Apply("scale", [s |-> s], [now EXCEPT !.map = Scaled(@, s), !.scale = RMul(@, s)])
Unit2 == \E u \in Pick({-16, -14, -10, -4, 0, 10}) : u # now.unit /\ Apply("unit", [u |-> u], [now EXCEPT !.unit = u])
Amplify == \E k \in Pick({<<-1, 1>>, <<2, 1>>, <<-3, 2>>, <<1, 4>>, <<7, 1>>}) : Apply("multiply sources", [k |-> k], [now EXCEPT !.factor = RMul(@, k)])
Perms == LET S == 1..6 IN {p \in [S -> S] : \A i, j \in S : i # j => p[i] # p[j]}
Swap(p, i, j) == [k \in DOMAIN p |-> IF k = i THEN p[j] ELSE IF k = j THEN p[i] ELSE p[k]]
Rename == \E i \in Pick(1..6), j \in Pick(1..6) : i # j /\ Apply("rename", [i |-> i, j |-> j], [now EXCEPT !.names = Swap(@, i, j)])
Renumber == Apply("renumber", [seed |-> IF Sim THEN RandomElement(1..1000) ELSE 1], now)
Change == Unit2 \/ Shift \/ Turn \/ Reflect \/ Resize \/ Amplify \/ Rename \/ Renumber
EInit == heap = <<Start>> /\ hist = <<>> /\ kind \in {[sym |-> s, names |-> <<>>, parts |-> <<>>] : s \in {"radial", "3d"}}
ENext == Len(hist) < Depth /\ Change
ENextSim == IF scene.parts = <<>> THEN kind' = RandomScene(scene.sym, SceneKinds, 1, Most, Vals) /\ UNCHANGED <<heap, hist>> ELSE ENext

(* Design: the map is a similarity whose factor is the scale, mirrored or not; names remain a permutation *)
Similarity == LET f == now.map IN
    MatMul(f.m, Transpose(f.m)) = [r \in 1..3 |-> [c \in 1..3 |-> IF r # c THEN 0 ELSE LET k == (f.den * now.scale[1]) \div now.scale[2] IN k * k]]
Exact == (now.map.den * now.scale[1]) % now.scale[2] = 0
HandedE == LET f == now.map IN (Det(f.m) < 0) <=> (f.mirrors = 1)
Permuted == \A i, j \in 1..6 : i # j => now.names[i] # now.names[j]
StaysRadial == Radial => now.map.m[1][3] = 0 /\ now.map.m[2][3] = 0 /\ now.map.m[3][1] = 0 /\ now.map.m[3][2] = 0 /\ now.map.b[1] = 0 /\ now.map.b[2] = 0
EDone == Len(hist) = Depth => (~Emit \/ RandomElement(1..8) # 1 \/ PrintT("B@" \o ToJson([scene |-> scene, ops |-> hist])))
=====================================================================================
