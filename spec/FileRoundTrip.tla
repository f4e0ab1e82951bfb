------------------------------ MODULE FileRoundTrip ------------------------------
(* Saving and loading meshes (property C11).  State: a heap of meshes (bags of elements, oriented), and what is
   in every file that was written.  A format can hold some kinds of elements only; a file always holds the mesh
   that was written to it last, whatever happened to that mesh since. *)
EXTENDS MeshModel, Json
CONSTANTS Depth, Bases, Files, Emit
VARIABLES heap, files, hist, kinds
vars == <<heap, files, hist, kinds>>

(* The formats: kinds of cells they hold, and whether they hold several kinds at once *)
Lin == {"line", "triangle"}
Table == [vtk  |-> [cells |-> {"line", "line4", "triangle", "triangle6"}, mixed |-> TRUE],
          vtu  |-> [cells |-> {"line", "line4", "triangle", "triangle6"}, mixed |-> TRUE],
          inp  |-> [cells |-> Lin \union {"triangle6"}, mixed |-> TRUE],
          bdf  |-> [cells |-> Lin \union {"triangle6"}, mixed |-> TRUE],
          mdpa |-> [cells |-> Lin \union {"triangle6"}, mixed |-> TRUE],
          vol  |-> [cells |-> Lin \union {"triangle6"}, mixed |-> TRUE],
          avs  |-> [cells |-> Lin, mixed |-> TRUE],
          mesh |-> [cells |-> Lin, mixed |-> TRUE],
          ply  |-> [cells |-> Lin, mixed |-> TRUE],
          post |-> [cells |-> Lin, mixed |-> TRUE],
          dat  |-> [cells |-> Lin, mixed |-> FALSE],
          off  |-> [cells |-> {"triangle"}, mixed |-> FALSE],
          stl  |-> [cells |-> {"triangle"}, mixed |-> FALSE],
          obj  |-> [cells |-> {"triangle"}, mixed |-> FALSE],
          xml  |-> [cells |-> {"triangle"}, mixed |-> FALSE]]
Formats == DOMAIN Table
Cell(e) == CASE Len(e.p) = 2 -> "line" [] Len(e.p) = 4 -> "line4" [] Len(e.p) = 3 -> "triangle" [] Len(e.p) = 6 -> "triangle6"
CellsOf(els) == {Cell(e) : e \in ToSet(els)}
Holds(f, els) == els # <<>> /\ CellsOf(els) \subseteq Table[f].cells /\ (Table[f].mixed \/ Cardinality(CellsOf(els)) = 1)

FlipE(e) == [e EXCEPT !.p = CASE Len(e.p) = 2 -> <<@[2], @[1]>> [] Len(e.p) = 4 -> <<@[2], @[1], @[4], @[3]>>
                              [] Len(e.p) = 3 -> <<@[1], @[3], @[2]>> [] Len(e.p) = 6 -> <<@[1], @[3], @[2], @[6], @[5], @[4]>>]
Named(els, S) == [i \in DOMAIN els |-> [els[i] EXCEPT !.nm = S]]

Log(op, args, els) == hist' = Append(hist, [op |-> op, args |-> args, els |-> els]) /\ UNCHANGED kinds
Push(op, args, els) == heap' = Append(heap, els) /\ Log(op, args, els) /\ UNCHANGED files
Some == IF Sim THEN {R(DOMAIN heap)} ELSE DOMAIN heap
New == \E m \in (IF Sim THEN {AnyMesh(kinds, {"a", "b"})} ELSE Bases) : Push("new", m, Elements(Cleanup(m)))
Flip == \E i \in Some : Push("flip", [i |-> i], [k \in DOMAIN heap[i] |-> FlipE(heap[i][k])])
Convert == \E i \in Some : Push("convert", [i |-> i], Named(heap[i], {}))
Import == \E i \in Some, g \in Pick({<<"a">>, <<"b", "a">>}) : Log("import", [i |-> i, g |-> g], heap[i]) /\ UNCHANGED <<heap, files>>
Save == \E i \in Some : Push("save", [i |-> i], heap[i])
Fits(i) == {f \in Files : Holds(f, heap[i])}
Write == \E i \in Some : \E f \in (IF Fits(i) = {} THEN {} ELSE Pick(Fits(i))) :
    /\ files' = [files EXCEPT ![f] = Named(heap[i], {})] /\ Log("write", [i |-> i, f |-> f], heap[i]) /\ UNCHANGED heap
Read == \E f \in (LET F == {g \in Files : files[g] # <<>>} IN IF F = {} THEN {} ELSE Pick(F)) : \E nm \in Pick({"", "x"}) :
    Push("read", [f |-> f, name |-> nm], Named(files[f], {nm} \ {""}))
Empty == heap = <<>> /\ files = [f \in Files |-> <<>>] /\ hist = <<>>
Init == Empty /\ kinds = <<2, 3>>
InitSim == Empty /\ kinds \in {<<2, 3>>, <<4, 3>>, <<2, 6>>, <<4, 6>>}
Next == IF heap = <<>> THEN New ELSE Len(hist) < Depth /\ (New \/ Flip \/ Convert \/ Write \/ Read \/ Save)
NextSim == IF heap = <<>> THEN New ELSE Len(hist) < Depth /\ (New \/ Flip \/ Convert \/ Import \/ Save \/ Write \/ Write \/ Read \/ Read)

(* Design *)
LastWrite(f) == LET W == {k \in DOMAIN hist : hist[k].op = "write" /\ hist[k].args.f = f} IN IF W = {} THEN <<>> ELSE hist[Max(W)].els
FileIsLastWrite == \A f \in Files : SameBag(files[f], Named(LastWrite(f), {}))
ReadIsWrite == \A k \in DOMAIN hist : hist[k].op = "read" =>
    \E j \in 1..(k - 1) : hist[j].op = "write" /\ hist[j].args.f = hist[k].args.f /\ SameBag(Named(hist[j].els, {}), Named(hist[k].els, {}))
OnlyWhatFits == \A f \in Files : files[f] = <<>> \/ Holds(f, files[f])
FlipTwice == \A i \in DOMAIN heap : \A e \in ToSet(heap[i]) : FlipE(FlipE(e)) = e
SomeBases == {[pts |-> <<<<0, 0, 0>>, <<1, 0, 0>>, <<0, 0, 1>>>>, l |-> <<<<1, 2>>>>, t |-> <<<<1, 2, 3>>>>, gl |-> [x \in {"a"} |-> <<1>>], gt |-> NoGroups],
              [pts |-> <<<<0, 0, 0>>, <<1, 0, 0>>, <<0, 0, 1>>>>, l |-> <<>>, t |-> <<<<1, 2, 3>>>>, gl |-> NoGroups, gt |-> NoGroups]}
Done == Len(hist) = Depth => (~Emit \/ R(1..6) # 1 \/ PrintT("B@" \o ToJson([ops |-> hist])))
=================================================================================
