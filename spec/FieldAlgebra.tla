-------------------------------- MODULE FieldAlgebra --------------------------------
(* Arithmetic with fields (property C14).  A field is a vector of coefficients over base fields: integers c over
   a power of two 2^s.  State: a heap of fields; every operation pushes a new one and leaves the others alone. *)
EXTENDS Scenes, Json
CONSTANTS Depth, Kinds, NBases, MaxShift, Factors, Vals, Setups, Emit
VARIABLES bases, heap, hist
vars == <<bases, heap, hist>>

(* cls: "bem", or sampled on one of two stretches of the axis ("axial", "shifted"); only fields of one class can be added *)
Field(cls, c, s) == [cls |-> cls, c |-> c, s |-> s]
Pow2(k) == 2 ^ k
AddF(f, g) == LET s == Max({f.s, g.s}) IN Field(f.cls, [i \in DOMAIN f.c |-> f.c[i] * Pow2(s - f.s) + g.c[i] * Pow2(s - g.s)], s)
MulF(f, k, s) == Field(f.cls, [i \in DOMAIN f.c |-> f.c[i] * k], f.s + s)
NegF(f) == MulF(f, -1, 0)
Base(i) == Field("bem", [j \in 1..NBases |-> IF i = j THEN 1 ELSE 0], 0)
Size(f) == Max({Abs(x) : x \in ToSet(f.c)})
Equal(f, g) == f.cls = g.cls /\ \A i \in DOMAIN f.c : f.c[i] * Pow2(g.s) = g.c[i] * Pow2(f.s)

Push(op, args, f) == Size(f) < 1000 /\ heap' = Append(heap, f) /\ hist' = Append(hist, [op |-> op, args |-> args, f |-> f]) /\ UNCHANGED bases
(* When simulating, both classes are equally likely as soon as there are fields of both *)
OfClass(c) == {i \in DOMAIN heap : heap[i].cls = c}
Likely == OfClass(RandomElement({f.cls : f \in ToSet(heap)}))
Some == IF Sim THEN {RandomElement(Likely)} ELSE DOMAIN heap
Pairs == IF Sim THEN LET S == TLCEval(Likely) IN {<<RandomElement(S), RandomElement(S)>>} ELSE {p \in (DOMAIN heap) \X (DOMAIN heap) : heap[p[1]].cls = heap[p[2]].cls}
Add == \E p \in Pairs : Push("add", [i |-> p[1], j |-> p[2]], AddF(heap[p[1]], heap[p[2]]))
Sub == \E p \in Pairs : Push("sub", [i |-> p[1], j |-> p[2]], AddF(heap[p[1]], NegF(heap[p[2]])))
Neg == \E i \in Some : Push("neg", [i |-> i], NegF(heap[i]))
(* Multiplication on the left or right, with integers, or with floating point numbers k / 2^s *)
Mul == \E i \in Some, side \in Pick({"left", "right"}), k \in Pick(Factors), s \in Pick(0..1) :
    heap[i].s + s <= MaxShift /\ Push("mul", [i |-> i, side |-> side, k |-> k, s |-> s], MulF(heap[i], k, s))
(* Interpolating on the axis is linear *)
Interpolate == bases.sym = "radial" /\ \E i \in Some, c \in Pick({"axial", "shifted"}) : heap[i].cls = "bem" /\ Push("interpolate", [i |-> i, c |-> c], [heap[i] EXCEPT !.cls = c])
(* Fields of different classes are never added; nothing changes *)
Mismatch == \E i \in (IF Sim THEN {RandomElement(DOMAIN heap)} ELSE DOMAIN heap) : LET D == {j \in DOMAIN heap : heap[j].cls # heap[i].cls} IN
    /\ D # {}
    /\ \E j \in (IF Sim THEN {RandomElement(D)} ELSE D), sub \in Pick(BOOLEAN) :
           hist' = Append(hist, [op |-> "mismatch", args |-> [i |-> i, j |-> j, sub |-> sub], f |-> heap[i]]) /\ UNCHANGED <<bases, heap>>

Start == [i \in 1..NBases |-> Base(i)]
(* One geometry, solved for NBases excitations; every second one is moved along the axis *)
RandomBases(sym) ==
    LET s == RandomScene(sym, Kinds, 2, 3, Vals)
        one(i) == LET S == TLCEval({j \in DOMAIN s.names : RandomElement(1..3) # 1} \union {RandomElement(SourceNames(s))})
                  IN  [moved |-> RandomElement(0..1), names |-> TLCEval([j \in S |-> [s.names[j] EXCEPT !.v = IF s.names[j].kind \in Sources THEN <<RandomElement(Vals), 1>> ELSE @]])]
    IN  [sym |-> sym, parts |-> s.parts, fields |-> TLCEval([i \in 1..NBases |-> LET o == one(i) IN [moved |-> o.moved, names |-> SetToSeq({o.names[j] : j \in DOMAIN o.names})]])]
Blank == bases.parts = <<>>
Init == bases \in Setups /\ heap = Start /\ hist = <<>>
InitSim == bases \in {[sym |-> s, parts |-> <<>>, fields |-> <<>>] : s \in {"radial", "3d"}} /\ heap = Start /\ hist = <<>>
Next == Len(hist) < Depth /\ (Add \/ Sub \/ Neg \/ Mul \/ Interpolate \/ Mismatch)
NextSim == IF Blank THEN bases' = RandomBases(bases.sym) /\ UNCHANGED <<heap, hist>> ELSE Len(hist) < Depth /\ (Add \/ Add \/ Sub \/ Neg \/ Mul \/ Mul \/ Interpolate \/ Mismatch)

(* Design: the laws of linear algebra on everything in the heap *)
Commutes == \A i, j \in DOMAIN heap : heap[i].cls = heap[j].cls => Equal(AddF(heap[i], heap[j]), AddF(heap[j], heap[i]))
Cancels == \A i \in DOMAIN heap : \A x \in ToSet(AddF(heap[i], NegF(heap[i])).c) : x = 0
Distributes == \A i, j \in DOMAIN heap : \A k \in {-2, 3} : heap[i].cls = heap[j].cls =>
    Equal(MulF(AddF(heap[i], heap[j]), k, 1), AddF(MulF(heap[i], k, 1), MulF(heap[j], k, 1)))
Twice == \A i \in DOMAIN heap : Equal(AddF(heap[i], heap[i]), MulF(heap[i], 2, 0))
OneClass == \A i \in DOMAIN hist : hist[i].op \in {"add", "sub"} => heap[hist[i].args.i].cls = heap[hist[i].args.j].cls
Operands == \A k \in 1..NBases : heap[k] = Base(k)
Setup2 == {[sym |-> s, parts |-> <<1>>, fields |-> <<>>] : s \in {"radial", "3d"}}
Done == Len(hist) = Depth => (~Emit \/ RandomElement(1..12) # 1 \/ PrintT("B@" \o ToJson([bases |-> bases, ops |-> hist])))
=====================================================================================
