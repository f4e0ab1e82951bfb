------------------------------- MODULE Excitation -------------------------------
(* What is applied to the named parts of a mesh (property C12).  State: a mesh (which elements carry which names)
   shared by two excitations; per excitation, what every name was assigned last.  Every assignment has a log entry
   with the state the specification prescribes afterwards; rejected assignments leave the state as it is. *)
EXTENDS Geo, Json
CONSTANTS Depth, NL, NT, Meshes, AllNames, Values, Emit
VARIABLES mesh, sym, exc, hist
vars == <<mesh, sym, exc, hist>>

Electric == {"fixed", "fun", "dielectric"}
Magnetic == {"potential", "magnetizable"}                     \* those that live on surface elements
Kinds == Electric \union Magnetic \union {"current"}
Nothing == <<"none", 0>>

(* Meshes: names of groups of line elements 1..NL and of triangles 1..NT; groups may overlap *)
Elements == IF sym = "radial" THEN mesh.gl ELSE mesh.gt
Size == IF sym = "radial" THEN NL ELSE NT
Known == DOMAIN mesh.gl \union DOMAIN mesh.gt
(* Names that can carry surface excitations in the chosen symmetry *)
Surface == DOMAIN Elements
Coils == DOMAIN mesh.gt

Assigned(e) == {n \in AllNames : e[n] # Nothing}
KindOf(e, n) == e[n][1]
ActiveNames(e, K) == {n \in Assigned(e) : KindOf(e, n) \in K}
ActiveElements(e, K) == UNION {Elements[n] : n \in ActiveNames(e, K)}
Flags(e) == [elec |-> \E n \in Assigned(e) : KindOf(e, n) \in {"fixed", "fun"},
             mag |-> \E n \in Assigned(e) : KindOf(e, n) \in {"potential", "current"},
             cur |-> \E n \in Assigned(e) : KindOf(e, n) = "current"]
Seq1(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
Show(e) == [types |-> [n \in Assigned(e) |-> e[n]], flags |-> Flags(e),
            elec |-> [n \in ActiveNames(e, Electric) |-> Seq1(Elements[n])], mag |-> [n \in ActiveNames(e, Magnetic) |-> Seq1(Elements[n])]]

Log(op, k, names, values, ok, new) == hist' = Append(hist, [op |-> op, k |-> k, names |-> names, values |-> values, ok |-> ok, now |-> [i \in DOMAIN new |-> Show(new[i])]])
Set(k, kind, names, values) == [exc EXCEPT ![k] = [n \in AllNames |-> IF n \in ToSet(names) THEN <<kind, values[CHOOSE i \in DOMAIN names : names[i] = n]>> ELSE @[n]]]
Assign(op, k, kind, names, values) == LET new == Set(k, kind, names, values) IN exc' = new /\ Log(op, k, names, values, TRUE, new) /\ UNCHANGED <<mesh, sym>>
(* The first name of a rejected assignment is the offending one *)
Reject(op, k, names, values) == Log(op, k, names, values, FALSE, exc) /\ UNCHANGED <<exc, mesh, sym>>

Lists(S) == IF S = {} THEN {} ELSE IF Sim THEN LET s == SetToSeq(S) i == RandomElement(1..Len(s)) j == RandomElement(1..Len(s)) IN {IF i = j THEN <<s[i]>> ELSE <<s[i], s[j]>>}
            ELSE {<<n>> : n \in S}
ValuesFor(names) == IF Sim THEN {[i \in DOMAIN names |-> RandomElement(Values)]} ELSE [DOMAIN names -> Values]
Which == Pick(DOMAIN exc)
Fixed == \E k \in Which : \E s \in Lists(Surface) : \E v \in ValuesFor(s) : Assign("voltage", k, "fixed", s, v)
Fun == \E k \in Which : \E s \in Lists(Surface) : \E v \in ValuesFor(s) : Assign("voltage function", k, "fun", s, v)
Dielectric == \E k \in Which : \E s \in Lists(Surface) : \E v \in ValuesFor(s) : Assign("dielectric", k, "dielectric", s, v)
Potential == \E k \in Which : \E s \in Lists(Surface) : \E v \in ValuesFor(s) : Assign("potential", k, "potential", s, v)
Magnetizable == \E k \in Which : \E s \in Lists(Surface) : \E v \in ValuesFor(s) : Assign("magnetizable", k, "magnetizable", s, v)
Current == sym = "radial" /\ \E k \in Which : \E s \in Lists(Coils) : \E v \in ValuesFor(s) : Assign("current", k, "current", s, v)
(* A boundary is a dielectric (magnetizable material) of constant zero *)
ElectricBoundary == \E k \in Which : \E s \in Lists(Surface) : Assign("electrostatic boundary", k, "dielectric", s, [i \in DOMAIN s |-> 0])
MagneticBoundary == \E k \in Which : \E s \in Lists(Surface) : Assign("magnetostatic boundary", k, "magnetizable", s, [i \in DOMAIN s |-> 0])
(* Rejected: names that do not exist, currents in something that is no coil or in three dimensions, values that are no voltage *)
Then(n, S) == IF Sim /\ S # {} THEN LET o == RandomElement(S) IN IF o = n \/ RandomElement(1..2) = 1 THEN <<n>> ELSE <<n, o>> ELSE <<n>>
Unknown == \E k \in Which : \E n \in (IF AllNames = Known THEN {} ELSE Pick(AllNames \ Known)) :
    \E op \in Pick({"voltage", "voltage function", "dielectric", "potential", "magnetizable", "current", "electrostatic boundary", "magnetostatic boundary"}) :
        LET s == Then(n, Surface) IN \E v \in ValuesFor(s) : Reject(op, k, s, v)
NoCoil == \E k \in Which : LET bad == IF sym = "radial" THEN Known \ Coils ELSE Known IN
    \E n \in (IF bad = {} THEN {} ELSE Pick(bad)) : LET s == Then(n, Coils) IN \E v \in ValuesFor(s) : Reject("current", k, s, v)
BadValue == \E k \in Which : \E n \in (IF Surface = {} THEN {} ELSE Pick(Surface)) : LET s == Then(n, Surface) IN \E v \in ValuesFor(s) : Reject("bad voltage", k, s, v)

Init == mesh \in Meshes /\ sym \in {"radial", "3d"} /\ exc = [k \in 1..(IF Sim THEN 2 ELSE 1) |-> [n \in AllNames |-> Nothing]] /\ hist = <<>>
(* Nonempty random groups; some names exist for one kind of element only *)
RandomGroups(N, names) == LET S == {n \in names : RandomElement(1..3) # 1} IN [n \in S |-> {RandomElement(1..N)} \union RandomElement(SUBSET (1..N))]
RandomMesh(none) == [gl |-> RandomGroups(NL, AllNames \ {"zz"}), gt |-> RandomGroups(NT, AllNames \ {"zz"})]
Setup == Known = {}
InitSim == mesh = [gl |-> [n \in {} |-> {}], gt |-> [n \in {} |-> {}]] /\ sym \in {"radial", "3d"} /\ exc = [k \in 1..2 |-> [n \in AllNames |-> Nothing]] /\ hist = <<>>
Change == Fixed \/ Fun \/ Dielectric \/ Potential \/ Magnetizable \/ Current \/ ElectricBoundary \/ MagneticBoundary \/ Unknown \/ NoCoil \/ BadValue
Next == Len(hist) < Depth /\ Change
NextSim == IF Setup THEN mesh' = RandomMesh(0) /\ UNCHANGED <<sym, exc, hist>> ELSE Next

---------------------------------------------------------------------------------
(* Design *)
LastFor(k, n) == LET W == {i \in DOMAIN hist : hist[i].k = k /\ hist[i].ok /\ n \in ToSet(hist[i].names)} IN IF W = {} THEN 0 ELSE Max(W)
ReflectsLast == \A k \in DOMAIN exc : \A n \in AllNames :
    LET i == LastFor(k, n) IN
    IF i = 0 THEN exc[k][n] = Nothing
    ELSE /\ KindOf(exc[k], n) = CASE hist[i].op = "voltage" -> "fixed" [] hist[i].op = "voltage function" -> "fun" [] hist[i].op \in {"dielectric", "electrostatic boundary"} -> "dielectric"
                                [] hist[i].op \in {"magnetizable", "magnetostatic boundary"} -> "magnetizable" [] OTHER -> hist[i].op
         /\ exc[k][n][2] = hist[i].values[CHOOSE j \in DOMAIN hist[i].names : hist[i].names[j] = n]
(* Numbering the active elements by counting the inactive ones before them gives every name its own elements *)
Compact(A, i) == i - Cardinality({j \in 1..i : j \notin A})
Compaction == \A k \in DOMAIN exc : \A K \in {Electric, Magnetic} :
    LET A == ActiveElements(exc[k], K)  s == Seq1(A) IN
    /\ A \subseteq 1..Size
    /\ \A n \in ActiveNames(exc[k], K) : \A i \in Elements[n] : Compact(A, i) \in DOMAIN s /\ s[Compact(A, i)] = i
    /\ \A i, j \in A : i # j => Compact(A, i) # Compact(A, j)
CurrentOnlyRadial == sym = "3d" => \A k \in DOMAIN exc : ~Flags(exc[k]).cur
FlagsConsistent == \A k \in DOMAIN exc : LET f == Flags(exc[k]) IN f.cur => f.mag
OnlyKnown == \A k \in DOMAIN exc : Assigned(exc[k]) \subseteq Known
SmallMeshes == {[gl |-> g, gt |-> h] : g \in {[n \in {"a", "b"} |-> IF n = "a" THEN {1, 2} ELSE {2, 3}], [n \in {"a"} |-> {3}]}, h \in {[n \in {"b"} |-> {2}], [n \in {"a", "c"} |-> IF n = "a" THEN {1} ELSE {}]}}
Done == Len(hist) = Depth => (~Emit \/ RandomElement(1..8) # 1 \/ PrintT("B@" \o ToJson([mesh |-> mesh, sym |-> sym, ops |-> hist])))
=================================================================================
