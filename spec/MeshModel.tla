-------------------------------- MODULE MeshModel --------------------------------
(* Meshes with indices, as the code keeps them: points, lines and triangles as sequences of point numbers,
   and named groups as sequences of element numbers per kind of element.  Numbers start at 1.
   Shared by the specifications of mesh algebra (C08), clean-up (C09) and orientation (C10). *)
EXTENDS Geo

Mesh0 == [pts |-> <<>>, l |-> <<>>, t |-> <<>>, gl |-> <<>>, gt |-> <<>>]
NoGroups == [x \in {} |-> <<>>]

Degenerate(pts, e) == Cross(VSub(pts[e[2]], pts[e[1]]), VSub(pts[e[3]], pts[e[1]])) = Zero
Renumber(seq, f(_)) == [i \in DOMAIN seq |-> [j \in DOMAIN seq[i] |-> f(seq[i][j])]]
Positions(pts, e) == [j \in DOMAIN e |-> pts[e[j]]]

(* Clean-up, the way the constructor does it: drop the triangles without area, then give every position one number *)
DropDegenerate(m) ==
    LET keep == SelectSeq([i \in DOMAIN m.t |-> i], LAMBDA i : ~Degenerate(m.pts, m.t[i]))
        new(i) == CHOOSE k \in DOMAIN keep : keep[k] = i
    IN  [m EXCEPT !.t = [k \in DOMAIN keep |-> m.t[keep[k]]],
                  !.gt = [nm \in DOMAIN m.gt |-> LET s == SelectSeq(m.gt[nm], LAMBDA i : i \in ToSet(keep)) IN [k \in DOMAIN s |-> new(s[k])]]]
LexLess(a, b) == \/ a[3] < b[3]
                 \/ a[3] = b[3] /\ a[2] < b[2]
                 \/ a[3] = b[3] /\ a[2] = b[2] /\ a[1] < b[1]
Dedup(m) ==
    LET u == SetToSortSeq(ToSet(m.pts), LexLess)
        new(i) == CHOOSE k \in DOMAIN u : u[k] = m.pts[i]
    IN  [m EXCEPT !.pts = u, !.l = Renumber(@, new), !.t = Renumber(@, new)]
Cleanup(m) == Dedup(DropDegenerate(m))

---------------------------------------------------------------------------------
(* Operations *)
Group(g, nm) == IF nm \in DOMAIN g THEN g[nm] ELSE <<>>
Shift(s, k) == [i \in DOMAIN s |-> s[i] + k]
MergeGroups(g, h, k) == [nm \in DOMAIN g \union DOMAIN h |-> Group(g, nm) \o Shift(Group(h, nm), k)]
Concat(a, b) ==
    Cleanup([pts |-> a.pts \o b.pts,
             l |-> a.l \o [i \in DOMAIN b.l |-> Shift(b.l[i], Len(a.pts))],
             t |-> a.t \o [i \in DOMAIN b.t |-> Shift(b.t[i], Len(a.pts))],
             gl |-> MergeGroups(a.gl, b.gl, Len(a.l)),
             gt |-> MergeGroups(a.gt, b.gt, Len(a.t))])
Members(s) == SetToSortSeq(ToSet(s), <)
ExtractGroup(m, nm) ==
    LET li == Members(Group(m.gl, nm))  ti == Members(Group(m.gt, nm))
        l == [k \in DOMAIN li |-> m.l[li[k]]]  t == [k \in DOMAIN ti |-> m.t[ti[k]]]
        used == UNION ({ToSet(l[k]) : k \in DOMAIN l} \union {ToSet(t[k]) : k \in DOMAIN t})
        pi == SetToSortSeq(used, <)
        new(i) == CHOOSE k \in DOMAIN pi : pi[k] = i
        G(g, s) == IF nm \in DOMAIN g THEN [x \in {nm} |-> [k \in DOMAIN s |-> k]] ELSE NoGroups
    IN  Cleanup([pts |-> [k \in DOMAIN pi |-> m.pts[pi[k]]], l |-> Renumber(l, new), t |-> Renumber(t, new), gl |-> G(m.gl, li), gt |-> G(m.gt, ti)])
WithoutLines(m) == [m EXCEPT !.l = <<>>, !.gl = NoGroups]
WithoutTriangles(m) == [m EXCEPT !.t = <<>>, !.gt = NoGroups]

---------------------------------------------------------------------------------
(* What a mesh means: its elements with positions and names, and the names there are *)
NamesOf(g, i) == {nm \in DOMAIN g : i \in ToSet(g[nm])}
Elements(m) == [i \in DOMAIN m.l |-> [k |-> "l", p |-> Positions(m.pts, m.l[i]), nm |-> NamesOf(m.gl, i)]]
            \o [i \in DOMAIN m.t |-> [k |-> "t", p |-> Positions(m.pts, m.t[i]), nm |-> NamesOf(m.gt, i)]]
Meaning(m) == [els |-> Elements(m), ln |-> DOMAIN m.gl, tn |-> DOMAIN m.gt]
Count(s, e) == Cardinality({i \in DOMAIN s : s[i] = e})
SameBag(s, r) == Len(s) = Len(r) /\ \A e \in ToSet(s) : Count(s, e) = Count(r, e)
Same(a, b) == SameBag(a.els, b.els) /\ a.ln = b.ln /\ a.tn = b.tn
WellFormed(m) == /\ \A e \in ToSet(m.l) \union ToSet(m.t) : ToSet(e) \subseteq DOMAIN m.pts
                 /\ Cardinality(ToSet(m.pts)) = Len(m.pts)
                 /\ \A e \in ToSet(m.t) : ~Degenerate(m.pts, e)
                 /\ \A nm \in DOMAIN m.gl : ToSet(m.gl[nm]) \subseteq DOMAIN m.l
                 /\ \A nm \in DOMAIN m.gt : ToSet(m.gt[nm]) \subseteq DOMAIN m.t
---------------------------------------------------------------------------------
(* Random meshes; ki = <<points per line, points per triangle>> *)
R(S) == RandomElement(S)
Lattice == {<<x, y, z>> : x \in 0..2, y \in 0..1, z \in -1..1}
RandomGroup(n) == SetToSeq(R(SUBSET (1..n)))
RandomGroups(n, names) == LET D == R(SUBSET names) IN [nm \in D |-> RandomGroup(n)]
RandomMesh(ki, names) ==
    LET np == R(4..7)
        pts == [i \in 1..np |-> R(Lattice)]
        lines == {e \in [1..2 -> 1..np] : pts[e[1]] # pts[e[2]]}
        tris == {e \in [1..3 -> 1..np] : ~Degenerate(pts, e)}
        nl == IF lines = {} THEN 0 ELSE R({0, 1, 2, 3, 5})
        nt == IF tris = {} THEN 0 ELSE R({0, 1, 2, 4})
        extra(e, k) == [i \in 1..k |-> IF i <= Len(e) THEN e[i] ELSE R(1..np)]
        l == [i \in 1..nl |-> extra(R(lines), ki[1])]
        t == [i \in 1..nt |-> extra(R(tris), ki[2])]
    IN  [pts |-> pts, l |-> l, t |-> t, gl |-> RandomGroups(nl, names), gt |-> RandomGroups(nt, names)]
(* Many copies of a mesh, the k-th moved by v*(k mod q): large meshes with points in common *)
Tiled(x, n, v, q) ==
    LET np == Len(x.pts)  nl == Len(x.l)  nt == Len(x.t)
        Part(i, size) == <<(i - 1) \div size, ((i - 1) % size) + 1>>
    IN  [pts |-> [i \in 1..n*np |-> LET c == Part(i, np) IN [j \in 1..3 |-> x.pts[c[2]][j] + v[j] * (c[1] % q)]],
         l |-> [i \in 1..n*nl |-> LET c == Part(i, nl) IN [j \in DOMAIN x.l[c[2]] |-> x.l[c[2]][j] + c[1] * np]],
         t |-> [i \in 1..n*nt |-> LET c == Part(i, nt) IN [j \in DOMAIN x.t[c[2]] |-> x.t[c[2]][j] + c[1] * np]],
         gl |-> [nm \in DOMAIN x.gl |-> [i \in 1..n*Len(x.gl[nm]) |-> LET c == Part(i, Len(x.gl[nm])) IN x.gl[nm][c[2]] + c[1] * nl]],
         gt |-> [nm \in DOMAIN x.gt |-> [i \in 1..n*Len(x.gt[nm]) |-> LET c == Part(i, Len(x.gt[nm])) IN x.gt[nm][c[2]] + c[1] * nt]]]
(* Now and then a large mesh *)
AnyMesh(ki, names) == LET m == TLCEval(RandomMesh(ki, names))
                      IN  IF R(1..7) = 1 THEN TLCEval(Tiled(m, R({3, 6, 10}), R({<<0, 2, 0>>, <<3, 0, 0>>, <<0, 0, 2>>, <<1, 0, 0>>, <<4, 1, 5>>}), R({1, 2, 11}))) ELSE m
=================================================================================
