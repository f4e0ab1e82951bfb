------------------------------- MODULE MeshAlgebra -------------------------------
(* Combining and selecting meshes (property C08).  State: a heap of meshes with indices (heap) and what each
   of them has to mean (mean): a bag of elements with positions and names.  Every operation is specified on
   the meaning; the design check shows that the index arithmetic of MeshModel refines it. *)
EXTENDS MeshModel, Json
CONSTANTS Depth, Bases, Names, Emit
VARIABLES heap, mean, hist, kinds
vars == <<heap, mean, hist, kinds>>

(* Operations on meanings *)
AddM(a, b) == [els |-> a.els \o b.els, ln |-> a.ln \union b.ln, tn |-> a.tn \union b.tn]
ExtractM(a, nm) == [els |-> LET s == SelectSeq(a.els, LAMBDA e : nm \in e.nm) IN [i \in DOMAIN s |-> [s[i] EXCEPT !.nm = {nm}]],
                    ln |-> a.ln \intersect {nm}, tn |-> a.tn \intersect {nm}]
DropM(a, k) == [els |-> SelectSeq(a.els, LAMBDA e : e.k # k), ln |-> IF k = "l" THEN {} ELSE a.ln, tn |-> IF k = "t" THEN {} ELSE a.tn]

(* What a mesh can be asked: its names, whether elements leave the plane y = 0 *)
NamesM(a) == a.ln \union a.tn
Spatial(a) == \E i \in DOMAIN a.els : \E k \in DOMAIN a.els[i].p : a.els[i].p[k][2] # 0

(* kinds = <<points per line, points per triangle>>, the same in one behaviour *)
Raw(m) == [pts |-> m.pts, l |-> m.l, t |-> m.t, gl |-> [nm \in DOMAIN m.gl |-> m.gl[nm]], gt |-> [nm \in DOMAIN m.gt |-> m.gt[nm]]]
Push(op, args, c, a) ==
    /\ heap' = Append(heap, c)
    /\ mean' = Append(mean, a)
    /\ hist' = Append(hist, [op |-> op, args |-> args, els |-> a.els, ln |-> a.ln, tn |-> a.tn, names |-> NamesM(a), spatial |-> Spatial(a)])
    /\ UNCHANGED kinds
Small(n) == n <= IF Sim THEN 40 ELSE 9
Some == IF Sim THEN {R(DOMAIN heap)} ELSE DOMAIN heap
New == \E m \in (IF Sim THEN {AnyMesh(kinds, Names)} ELSE Bases) : Push("new", Raw(m), Cleanup(m), Meaning(Cleanup(m)))
Add == \E i, j \in Some \union (IF Sim THEN Some ELSE {}) : Small(Len(mean[i].els) + Len(mean[j].els)) /\ Push("add", [i |-> i, j |-> j], Concat(heap[i], heap[j]), AddM(mean[i], mean[j]))
Extract == \E i \in Some : \E nm \in (LET N == mean[i].ln \union mean[i].tn IN IF N = {} THEN {} ELSE Pick(N)) :
               Push("extract", [i |-> i, name |-> nm], ExtractGroup(heap[i], nm), ExtractM(mean[i], nm))
DropLines == \E i \in Some : Push("remove_lines", [i |-> i], WithoutLines(heap[i]), DropM(mean[i], "l"))
DropTriangles == \E i \in Some : Push("remove_triangles", [i |-> i], WithoutTriangles(heap[i]), DropM(mean[i], "t"))
Init == heap = <<>> /\ mean = <<>> /\ hist = <<>> /\ kinds = <<2, 3>>
Next == IF heap = <<>> THEN New
        ELSE Len(hist) < Depth /\ (New \/ Add \/ Extract \/ DropLines \/ DropTriangles)
(* when simulating: the number of points per element is chosen first *)
InitSim == heap = <<>> /\ mean = <<>> /\ hist = <<>> /\ kinds \in {<<2, 3>>, <<4, 3>>, <<2, 6>>, <<4, 6>>}
NextSim == IF Len(hist) < 2 THEN New
           ELSE Len(hist) < Depth /\ (New \/ Add \/ Add \/ Extract \/ DropLines \/ DropTriangles)

(* Design *)
Refines == \A i \in DOMAIN heap : Same(Meaning(heap[i]), mean[i])
Formed == \A i \in DOMAIN heap : WellFormed(heap[i])
Associative == \A i, j, k \in DOMAIN heap : Same(Meaning(Concat(Concat(heap[i], heap[j]), heap[k])), Meaning(Concat(heap[i], Concat(heap[j], heap[k]))))
Distributes == \A i, j \in DOMAIN heap : \A nm \in mean[i].ln \union mean[i].tn :
    LET a == ExtractM(AddM(mean[i], mean[j]), nm)  b == AddM(ExtractM(mean[i], nm), ExtractM(mean[j], nm)) IN Same(a, b)
Partition == \A i \in DOMAIN heap : SameBag(mean[i].els, DropM(mean[i], "l").els \o DropM(mean[i], "t").els)
QuestionsAdd == \A i, j \in DOMAIN heap : LET s == AddM(mean[i], mean[j]) IN NamesM(s) = NamesM(mean[i]) \union NamesM(mean[j]) /\ (Spatial(s) <=> Spatial(mean[i]) \/ Spatial(mean[j]))
ExtractTwice == \A i \in DOMAIN heap : \A nm \in mean[i].ln \union mean[i].tn : LET x == ExtractM(mean[i], nm) IN Same(ExtractM(x, nm), x)

(* A few meshes for the exhaustive check: shared positions, overlapping groups, a name for both kinds, an empty group *)
O == <<0, 0, 0>>  X == <<1, 0, 0>>  Z == <<0, 0, 1>>  Y == <<0, 1, 0>>
SomeBases == {
    [pts |-> <<O, X, Z, X>>, l |-> <<<<1, 2>>, <<4, 3>>>>, t |-> <<<<1, 2, 3>>>>, gl |-> [x \in {"a"} |-> <<2>>], gt |-> [x \in {"a", "b"} |-> IF x = "a" THEN <<1>> ELSE <<>>]],
    [pts |-> <<Z, X, Y, O>>, l |-> <<>>, t |-> <<<<1, 2, 3>>, <<4, 3, 2>>>>, gl |-> NoGroups, gt |-> [x \in {"a", "b"} |-> IF x = "a" THEN <<2, 1>> ELSE <<1>>]],
    [pts |-> <<O, Y>>, l |-> <<<<2, 1>>, <<1, 2>>>>, t |-> <<>>, gl |-> [x \in {"b"} |-> <<1, 2>>], gt |-> NoGroups]}
Done == Len(hist) = Depth => (~Emit \/ R(1..4) # 1 \/ PrintT("B@" \o ToJson([ops |-> hist])))
=================================================================================
