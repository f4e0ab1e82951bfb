------------------------------- MODULE MeshCleanup -------------------------------
(* Construction of a mesh (property C09): the clean-up of MeshModel against what it has to mean.
     Design  exhaustively: all meshes of two triangles and a line over four point numbers at a few positions
             (coinciding, collinear), with any group of triangles;
     Gen     random meshes for the real code, with the elements they must have. *)
EXTENDS MeshModel, Json
CONSTANTS GenN
VARIABLES m
vars == <<m>>

O == <<0, 0, 0>>  X == <<1, 0, 0>>  X2 == <<2, 0, 0>>  Y == <<0, 1, 0>>  Z == <<0, 0, 1>>
PointLists == {<<O, X, Y, Z>>, <<O, X, Y, O>>, <<X, X, Y, O>>, <<O, X, X2, Y>>, <<Y, O, O, Y>>, <<Z, O, Z, X>>, <<O, O, O, O>>, <<X2, Y, X, O>>}
Triples == [1..3 -> 1..4]
DesignInit == \E pts \in PointLists, a \in Triples, b \in Triples, g \in {<<>>, <<1>>, <<2>>, <<2, 1>>, <<1, 2>>, <<2, 2>>} :
    m = [pts |-> pts, l |-> <<<<1, 4>>>>, t |-> <<a, b>>, gl |-> [x \in {"a"} |-> <<1>>], gt |-> [x \in {"a"} |-> g]]
DesignSpec == DesignInit /\ [][FALSE]_vars

(* What has to be left *)
Wanted(x) == SelectSeq(Elements(x), LAMBDA e : e.k = "l" \/ Cross(VSub(e.p[2], e.p[1]), VSub(e.p[3], e.p[1])) # Zero)
Left == Elements(Cleanup(m)) = Wanted(m)                   \* in order, with positions, corner order and names
Once == Cardinality(ToSet(Cleanup(m).pts)) = Len(Cleanup(m).pts) /\ ToSet(Cleanup(m).pts) = ToSet(m.pts)
Formed == WellFormed(Cleanup(m))
Idempotent == Cleanup(Cleanup(m)) = Cleanup(m)
SameNames == DOMAIN Cleanup(m).gl = DOMAIN m.gl /\ DOMAIN Cleanup(m).gt = DOMAIN m.gt
(* the group keeps its order: position k of the cleaned group is the k-th surviving member *)
GroupOrder == LET c == Cleanup(m)
                  s == SelectSeq(m.gt["a"], LAMBDA i : ~Degenerate(m.pts, m.t[i]))
              IN  [k \in DOMAIN s |-> Positions(m.pts, m.t[s[k]])] = [k \in DOMAIN c.gt["a"] |-> Positions(c.pts, c.t[c.gt["a"][k]])]

Lattice3 == {<<x, y, z>> : x \in -1..2, y \in -1..1, z \in 0..2}
RawMesh(x) ==
    LET ki == R({<<2, 3>>, <<2, 3>>, <<4, 6>>, <<4, 3>>, <<2, 6>>})
        few == [i \in 1..R(3..6) |-> R(Lattice3)]
        np == R(4..10)
        pts == [i \in 1..np |-> few[R(DOMAIN few)]]
        lines == {e \in [1..2 -> 1..np] : pts[e[1]] # pts[e[2]]}
        l == [i \in 1..(IF lines = {} THEN 0 ELSE R({0, 1, 3, 6})) |-> LET e == R(lines) IN [j \in 1..ki[1] |-> IF j <= 2 THEN e[j] ELSE R(1..np)]]
        t == [i \in 1..R({0, 1, 3, 5, 8}) |-> [j \in 1..ki[2] |-> R(1..np)]]
        G(n) == LET D == R(SUBSET {"a", "b", "c"}) IN [nm \in D |-> LET s == SetToSeq(R(SUBSET (1..n))) IN IF R(1..2) = 1 THEN s ELSE Reverse(s)]
        one == [pts |-> pts, l |-> l, t |-> t, gl |-> G(Len(l)), gt |-> G(Len(t))]
        mesh == IF R(1..8) = 1 THEN Tiled(one, R({8, 20, 40}), R({<<0, 3, 0>>, <<3, 0, 0>>, <<0, 0, 3>>, <<0, 2, 0>>}), R({1, 2, 5})) ELSE one
    IN  [mesh |-> mesh, noise |-> [i \in 1..Len(mesh.pts) |-> R({0, 0, 1, 2, 3, 4})], ensure |-> R(BOOLEAN), scale |-> R({0, 0, -20, -30, 12, 99}), shift |-> R({0, 0, 0, 64, 500}),
         els |-> Wanted(mesh), npts |-> Cardinality(ToSet(mesh.pts)), form |-> R(1..3)]
GenInit == PrintT("B@" \o ToJson([i \in 1..GenN |-> RawMesh(i)])) /\ m = Mesh0
GenSpec == GenInit /\ [][FALSE]_vars
=================================================================================
