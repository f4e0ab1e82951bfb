----------------------------- MODULE SurfaceAlgebra -----------------------------
(* What sweeping, spanning and filling paths, taking boundaries and collecting surfaces mean
   (traceon/geometry.py, class Surface and the collections; property C05).

   Paths are lattice polylines whose segments have integer lengths; every inner vertex is a corner.
   A surface is the definition it was made from, evaluated exactly (rationals with denominator Den)
   at the fractions i/G, j/G of its two parameters; a revolved surface additionally says by which
   part of the angle to turn.
   Objects: paths, surfaces (both with an identity, because collections share their members) and
   collections of either. *)
EXTENDS Geo, Json, Randomization
CONSTANTS Depth, Dirs, MaxN, Starts, Names, MaxObj, Emit
VARIABLES paths, surfs, pcolls, scolls, hist
vars == <<paths, surfs, pcolls, scolls, hist>>

G == 4                     \* grid resolution
Den == 960                 \* multiple of 4*4*3*5: common denominator of everything
PLen(d) == CHOOSE n \in 1..9 : n * n = Dot(d, d)
(* A path: vertices, and the distance of every vertex along the path *)
RECURSIVE Cumulative(_, _, _)
Cumulative(pts, i, at) == IF i = Len(pts) THEN <<at>>
                          ELSE <<at>> \o Cumulative(pts, i + 1, at + LET w == VSub(pts[i + 1], pts[i])  q == Dot(w, w) IN CHOOSE n \in 1..60 : n * n = q)
Poly(pts, name) == [pts |-> pts, cum |-> Cumulative(pts, 1, 0), name |-> name]
NSeg(p) == Len(p.pts) - 1
Length(p) == p.cum[Len(p.cum)]
Corners(p) == SubSeq(p.cum, 2, Len(p.cum) - 1)
PStart(p) == p.pts[1]
PEnd(p) == Last(p.pts)
PClosed(p) == PStart(p) = PEnd(p)
(* Den * point at the fraction i/G of the length *)
At(p, i) ==
    LET s == i * Length(p)          \* distance times G
        k == CHOOSE k \in 1..NSeg(p) : G * p.cum[k] <= s /\ s <= G * p.cum[k + 1]
        a == p.pts[k]
        b == p.pts[k + 1]
        l == p.cum[k + 1] - p.cum[k]
        num == s - G * p.cum[k]                  \* fraction num / (G l) of the segment; Den divides by G * (primitive length)
    IN  VAdd(VScale(Den, a), [c \in 1..3 |-> (Den * (b[c] - a[c]) * num) \div (G * l)])
Moved(p, d) == [p EXCEPT !.pts = [i \in DOMAIN p.pts |-> VAdd(p.pts[i], d)]]

---------------------------------------------------------------------------------
(* Surfaces *)
Sweep(p, q, name) == [k |-> "sweep", p |-> p, q |-> q, r |-> p, s |-> p, axis |-> 0, ang |-> 0, cap |-> <<0, 0>>, name |-> name]
Span(p, q) == [k |-> "span", p |-> p, q |-> q, r |-> p, s |-> p, axis |-> 0, ang |-> 0, cap |-> <<0, 0>>, name |-> ""]
Fill(p, q, r, s) == [k |-> "fill", p |-> p, q |-> q, r |-> r, s |-> s, axis |-> 0, ang |-> 0, cap |-> <<0, 0>>, name |-> ""]
Revolve(p, axis, ang, name) == [k |-> "revolve", p |-> p, q |-> p, r |-> p, s |-> p, axis |-> axis, ang |-> ang, cap |-> <<0, 0>>, name |-> name]
DivBy(a, n) == [c \in 1..3 |-> a[c] \div n]
Point(s, i, j) ==
    CASE s.k = "sweep" -> VSub(VAdd(At(s.p, i), At(s.q, j)), VScale(Den, PStart(s.q)))
      [] s.k = "span" -> DivBy(VAdd(VScale(G - j, At(s.p, i)), VScale(j, At(s.q, i))), G)
      [] s.k = "revolve" -> At(s.p, i)           \* to be turned by ang*j/G around the axis
      [] s.k = "fill" -> LET U == VAdd(VScale(G - j, At(s.p, i)), VScale(j, At(s.r, G - i)))
                             V == VAdd(VScale(G - i, At(s.s, G - j)), VScale(i, At(s.q, j)))
                             C == VAdd(VAdd(VScale((G - i) * (G - j), PStart(s.p)), VScale(i * (G - j), PStart(s.q))),
                                       VAdd(VScale(i * j, PStart(s.r)), VScale((G - i) * j, PStart(s.s))))
                         IN  DivBy(VSub(VScale(G, VAdd(U, V)), VScale(Den, C)), G * G)
Grid(s) == [i \in 0..G |-> [j \in 0..G |-> Point(s, i, j)]]
(* Corners in the first and second parameter, as fractions <<num, den>> *)
FracLess(a, b) == a[1] * b[2] < b[1] * a[2]
Frac(cs, l) == {<<cs[i], l>> : i \in DOMAIN cs}
Rev(F) == {<<f[2] - f[1], f[2]>> : f \in F}
Same(a, b) == a[1] * b[2] = b[1] * a[2]
Uniq(S) == {f \in S : \A g \in S : Same(f, g) => f[2] <= g[2]}
Corners1(s) == LET own == Frac(Corners(s.p), Length(s.p)) IN SetToSortSeq(Uniq(
    CASE s.k \in {"sweep", "revolve"} -> own
      [] s.k = "span" -> own \union Frac(Corners(s.q), Length(s.q))
      [] s.k = "fill" -> own \union Rev(Frac(Corners(s.r), Length(s.r)))), FracLess)
Corners2(s) == SetToSortSeq(Uniq(
    CASE s.k = "sweep" -> Frac(Corners(s.q), Length(s.q))
      [] s.k \in {"span", "revolve"} -> {}
      [] s.k = "fill" -> Frac(Corners(s.q), Length(s.q)) \union Rev(Frac(Corners(s.s), Length(s.s)))), FracLess)
(* times 2; 0 where the definition does not say *)
Length1(s) == CASE s.k = "span" -> 2 * Max({Length(s.p), Length(s.q)}) [] s.k = "fill" -> Length(s.p) + Length(s.r) [] OTHER -> 2 * Length(s.p)
Length2(s) == CASE s.k = "sweep" -> 2 * Length(s.q) [] s.k = "fill" -> Length(s.q) + Length(s.s) [] OTHER -> 0
(* Edges: v = 0, v = end, u = 0, u = end; closed when start and end coincide *)
OnAxis(s, i) == LET p == At(s.p, i) IN \A c \in 1..3 : c = s.axis \/ p[c] = 0
EdgeClosed(s) == LET P(i, j) == Point(s, i, j) IN
    IF s.k = "revolve" THEN <<P(0, 0) = P(G, 0), P(0, 0) = P(G, 0), s.ang = 16 \/ OnAxis(s, 0), s.ang = 16 \/ OnAxis(s, G)>>
    ELSE <<P(0, 0) = P(G, 0), P(0, G) = P(G, G), P(0, 0) = P(0, G), P(G, 0) = P(G, G)>>
Proj(s) == [k |-> s.k, grid |-> [i \in 1..(G + 1) |-> [j \in 1..(G + 1) |-> Point(s, i - 1, j - 1)]], axis |-> s.axis, ang |-> s.ang, cap |-> s.cap,
            c1 |-> Corners1(s), c2 |-> Corners2(s), l1 |-> Length1(s), l2 |-> Length2(s), closed |-> EdgeClosed(s), name |-> s.name]
PProj(p) == [pts |-> p.pts, len |-> Length(p), corners |-> Corners(p), closed |-> PClosed(p), name |-> p.name]
(* The edges of a sweep are paths again *)
Edges(s) == LET all == <<s.p, Moved(s.p, VSub(PEnd(s.q), PStart(s.q))), Moved(s.q, VSub(PStart(s.p), PStart(s.q))), Moved(s.q, VSub(PEnd(s.p), PStart(s.q)))>>
                some == \E i \in 1..4 : PClosed(all[i])
            IN  [i \in 1..4 |-> [path |-> [all[i] EXCEPT !.name = s.name], keep |-> ~some \/ PClosed(all[i])]]
Boundary(s) == LET e == SelectSeq(Edges(s), LAMBDA x : x.keep) IN [i \in DOMAIN e |-> e[i].path]
MovedSurf(s, d) == [s EXCEPT !.p = Moved(@, d)]                   \* of a sweep
TurnedSurf(s, axis, ang) == [s EXCEPT !.cap = <<axis, ang>>]

---------------------------------------------------------------------------------
Running == Len(hist) < Depth
Obj == Len(paths) + Len(surfs) < MaxObj
(* New members are appended; the history says which collections and members an operation returns *)
Do(op, args, ps, ss, pc, sc, ret) ==
    /\ Running /\ Obj
    /\ paths' = paths \o ps /\ surfs' = surfs \o ss /\ pcolls' = pcolls \o pc /\ scolls' = scolls \o sc
    /\ hist' = Append(hist, [op |-> op, args |-> args, paths |-> [i \in DOMAIN ps |-> PProj(ps[i])], surfs |-> [i \in DOMAIN ss |-> Proj(ss[i])], ret |-> ret])
Ids(from, n) == [i \in 1..n |-> from + i]
RECURSIVE Walk(_, _)
Walk(a, steps) == IF steps = <<>> THEN <<a>> ELSE <<a>> \o Walk(VAdd(a, VScale(steps[1].n, steps[1].d)), Tail(steps))
Steps == {[d |-> d, n |-> n] : d \in Dirs, n \in 1..MaxN}
NewPath == \E a \in Pick(Starts), k \in Pick(1..3) : \E s1 \in Pick(Steps), s2 \in Pick(Steps), s3 \in Pick(Steps), closed \in Pick({FALSE, FALSE, TRUE}), nm \in Pick(Names) :
    LET st == SubSeq(<<s1, s2, s3>>, 1, k)
        open == Walk(a, st)
        w == VSub(a, Last(open))
        back == \E d \in Dirs, n \in 1..60 : VScale(n, d) = w
        p == Poly(IF closed /\ back THEN Append(open, a) ELSE open, nm)
    IN  Do("path", [pts |-> p.pts, name |-> nm], <<p>>, <<>>, <<>>, <<>>, <<>>)
P == Pick(DOMAIN paths)
S == Pick(DOMAIN surfs)
Extrude == paths # <<>> /\ \E i \in P, d \in Pick(Dirs), n \in Pick(1..MaxN) :
    Do("extrude", [i |-> i, v |-> VScale(n, d)], <<>>, <<Sweep(paths[i], Poly(<<Zero, VScale(n, d)>>, ""), paths[i].name)>>, <<>>, <<>>, <<>>)
ExtrudeBy == paths # <<>> /\ \E i \in P, j \in P : Do("extrude_by_path", [i |-> i, j |-> j], <<>>, <<Sweep(paths[i], paths[j], paths[i].name)>>, <<>>, <<>>, <<>>)
(* (guards are compared with TRUE: as a conjunct of an action, a disjunction would give a successor for every way to satisfy it) *)
OffAxis(p, ax) == \E m \in DOMAIN p.pts : \E c \in 1..3 : c # ax /\ p.pts[m][c] # 0
RevolveP == paths # <<>> /\ \E i \in P, ax \in Pick(Axis), a \in Pick({2, 4, 5, 8, 12, 16}) :
    /\ OffAxis(paths[i], ax) = TRUE
    /\ Do("revolve", [i |-> i, axis |-> ax, ang |-> a], <<>>, <<Revolve(paths[i], ax, a, paths[i].name)>>, <<>>, <<>>, <<>>)
SpanP == paths # <<>> /\ \E i \in P, j \in P : /\ (PStart(paths[i]) # PStart(paths[j]) \/ PEnd(paths[i]) # PEnd(paths[j])) = TRUE
                                               /\ Do("span", [i |-> i, j |-> j], <<>>, <<Span(paths[i], paths[j])>>, <<>>, <<>>, <<>>)
(* Four boundary paths: the first is given, the others are polylines through the corners a, b, c, d *)
FillP == paths # <<>> /\ \E i \in P, s1 \in Pick(Steps), s2 \in Pick(Steps), s3 \in Pick(Steps) :
    LET p == paths[i]
        b == PEnd(p)
        q == Poly(Walk(b, <<s1, s2>>), "")
        c == PEnd(q)
        r == Poly(Walk(c, <<s3>>), "")
        w == VSub(PStart(p), PEnd(r))
        s == Poly(<<PEnd(r), PStart(p)>>, "")
    IN  /\ (\E d \in Dirs, n \in 1..60 : VScale(n, d) = w) = TRUE
        /\ Do("fill", [i |-> i, q |-> q.pts, r |-> r.pts, s |-> s.pts], <<q, r, s>>, <<Fill(p, q, r, s)>>, <<>>, <<>>, <<>>)
Sweeps == {i \in DOMAIN surfs : surfs[i].k = "sweep" /\ surfs[i].cap = <<0, 0>>}
ToBoundary == Sweeps # {} /\ \E i \in Pick(Sweeps) :
    LET b == Boundary(surfs[i]) IN Do("boundary", [i |-> i], b, <<>>, <<Ids(Len(paths), Len(b))>>, <<>>, <<>>)
(* Shells: the surface, the swept boundary and, when enclosing, the cap *)
ShellOp(i, op, args, sides, cap, enclose) ==
    LET new == sides \o (IF enclose THEN <<cap>> ELSE <<>>) IN
    Do(op, args, <<>>, new, <<>>, <<<<i>> \o Ids(Len(surfs), Len(new))>>, <<>>)
ShellExtrude == Sweeps # {} /\ \E i \in Pick(Sweeps), d \in Pick(Dirs), n \in Pick(1..MaxN), e \in Pick(BOOLEAN) :
    LET b == Boundary(surfs[i])  v == VScale(n, d) IN
    ShellOp(i, "extrude_boundary", [i |-> i, v |-> v, enclose |-> e], [k \in DOMAIN b |-> Sweep(b[k], Poly(<<Zero, v>>, ""), b[k].name)], MovedSurf(surfs[i], v), e)
ShellBy == Sweeps # {} /\ \E i \in Pick(Sweeps), j \in P, e \in Pick(BOOLEAN) :
    LET b == Boundary(surfs[i]) IN
    ShellOp(i, "extrude_boundary_by_path", [i |-> i, j |-> j, enclose |-> e], [k \in DOMAIN b |-> Sweep(b[k], paths[j], b[k].name)], MovedSurf(surfs[i], VSub(PEnd(paths[j]), PStart(paths[j]))), e)
ShellRevolve == Sweeps # {} /\ \E i \in Pick(Sweeps), ax \in Pick(Axis), a \in Pick({2, 4, 5, 8, 12}), e \in Pick(BOOLEAN) :
    LET b == Boundary(surfs[i]) IN
    /\ (\A k \in DOMAIN b : OffAxis(b[k], ax)) = TRUE
    /\ ShellOp(i, "revolve_boundary", [i |-> i, axis |-> ax, ang |-> a, enclose |-> e], [k \in DOMAIN b |-> Revolve(b[k], ax, a, b[k].name)], TurnedSurf(surfs[i], ax, a), e)
(* Collections *)
AddPaths == paths # <<>> /\ \E i \in P, j \in P : Do("add_paths", [i |-> i, j |-> j], <<>>, <<>>, <<<<i, j>>>>, <<>>, <<>>)
AddSurfs == surfs # <<>> /\ \E i \in S, j \in S : Do("add_surfs", [i |-> i, j |-> j], <<>>, <<>>, <<>>, <<<<i, j>>>>, <<>>)
PC == Pick(DOMAIN pcolls)
SC == Pick(DOMAIN scolls)
AddPC == pcolls # <<>> /\ \E c \in PC, i \in P, d \in PC, how \in Pick({"cp", "pc", "cc"}) :
    Do("add_pc", [c |-> c, i |-> i, d |-> d, how |-> how], <<>>, <<>>, <<CASE how = "cp" -> Append(pcolls[c], i) [] how = "pc" -> <<i>> \o pcolls[c] [] how = "cc" -> pcolls[c] \o pcolls[d]>>, <<>>, <<>>)
AddSC == scolls # <<>> /\ \E c \in SC, i \in S, d \in SC, how \in Pick({"cp", "pc", "cc"}) :
    Do("add_sc", [c |-> c, i |-> i, d |-> d, how |-> how], <<>>, <<>>, <<>>, <<CASE how = "cp" -> Append(scolls[c], i) [] how = "pc" -> <<i>> \o scolls[c] [] how = "cc" -> scolls[c] \o scolls[d]>>, <<>>)
(* += extends the collection itself, and no other *)
IAddPC == Running /\ pcolls # <<>> /\ \E c \in PC, i \in P, d \in PC, how \in Pick({"p", "c"}) :
    /\ (how = "p" \/ c # d) = TRUE
    /\ pcolls' = [pcolls EXCEPT ![c] = IF how = "p" THEN Append(@, i) ELSE @ \o pcolls[d]]
    /\ hist' = Append(hist, [op |-> "iadd_pc", args |-> [c |-> c, i |-> i, d |-> d, how |-> how], paths |-> <<>>, surfs |-> <<>>, ret |-> <<>>]) /\ UNCHANGED <<paths, surfs, scolls>>
IAddSC == Running /\ scolls # <<>> /\ \E c \in SC, i \in S, d \in SC, how \in Pick({"p", "c"}) :
    /\ (how = "p" \/ c # d) = TRUE
    /\ scolls' = [scolls EXCEPT ![c] = IF how = "p" THEN Append(@, i) ELSE @ \o scolls[d]]
    /\ hist' = Append(hist, [op |-> "iadd_sc", args |-> [c |-> c, i |-> i, d |-> d, how |-> how], paths |-> <<>>, surfs |-> <<>>, ret |-> <<>>]) /\ UNCHANGED <<paths, surfs, pcolls>>
(* Operations on a collection act on every member, in order *)
MapPC == pcolls # <<>> /\ \E c \in PC, how \in Pick({"extrude", "revolve", "by_path"}), d \in Pick(Dirs), ax \in Pick(Axis), a \in Pick({2, 4, 8, 16}), j \in P :
    LET m == pcolls[c]
        F(k) == LET p == paths[m[k]] IN
                CASE how = "extrude" -> Sweep(p, Poly(<<Zero, d>>, ""), p.name)
                  [] how = "by_path" -> Sweep(p, paths[j], p.name)
                  [] how = "revolve" -> Revolve(p, ax, a, p.name)
        new == [k \in DOMAIN m |-> F(k)]
    IN  /\ Len(m) <= 6
        /\ (how = "revolve" => \A k \in DOMAIN m : OffAxis(paths[m[k]], ax)) = TRUE
        /\ Do("map_pc", [c |-> c, how |-> how, v |-> d, axis |-> ax, ang |-> a, j |-> j], <<>>, new, <<>>, <<Ids(Len(surfs), Len(new))>>, <<>>)
NamePC == Running /\ pcolls # <<>> /\ \E c \in PC, n \in Pick(Names) :
    /\ paths' = [i \in DOMAIN paths |-> IF i \in ToSet(pcolls[c]) THEN [paths[i] EXCEPT !.name = n] ELSE paths[i]]
    /\ hist' = Append(hist, [op |-> "name_pc", args |-> [c |-> c, name |-> n], paths |-> <<>>, surfs |-> <<>>, ret |-> <<>>]) /\ UNCHANGED <<surfs, pcolls, scolls>>
NameSC == Running /\ scolls # <<>> /\ \E c \in SC, n \in Pick(Names) :
    /\ surfs' = [i \in DOMAIN surfs |-> IF i \in ToSet(scolls[c]) THEN [surfs[i] EXCEPT !.name = n] ELSE surfs[i]]
    /\ hist' = Append(hist, [op |-> "name_sc", args |-> [c |-> c, name |-> n], paths |-> <<>>, surfs |-> <<>>, ret |-> <<>>]) /\ UNCHANGED <<paths, pcolls, scolls>>

Init == paths = <<>> /\ surfs = <<>> /\ pcolls = <<>> /\ scolls = <<>> /\ hist = <<>>
Next == NewPath \/ Extrude \/ ExtrudeBy \/ RevolveP \/ SpanP \/ FillP \/ ToBoundary \/ ShellExtrude \/ ShellBy \/ ShellRevolve
        \/ AddPaths \/ AddSurfs \/ AddPC \/ AddSC \/ IAddPC \/ IAddSC \/ MapPC \/ NamePC \/ NameSC
NextMake == NewPath \/ Extrude \/ ExtrudeBy \/ RevolveP \/ SpanP \/ FillP
(* For simulation: four operations drawn at random (TLC computes every successor of a state it visits) *)
Op(o) == CASE o = 1 -> NewPath
           [] o = 2 -> Extrude
           [] o = 3 -> ExtrudeBy
           [] o = 4 -> RevolveP
           [] o = 5 -> SpanP
           [] o = 6 -> FillP
           [] o = 7 -> ToBoundary
           [] o = 8 -> ShellExtrude
           [] o = 9 -> ShellBy
           [] o = 10 -> ShellRevolve
           [] o = 11 -> AddPaths
           [] o = 12 -> AddSurfs
           [] o = 13 -> AddPC
           [] o = 14 -> AddSC
           [] o = 15 -> IAddPC
           [] o = 16 -> IAddSC
           [] o = 17 -> MapPC
           [] o = 18 -> NamePC
           [] o = 19 -> NameSC
NextSim == \/ paths = <<>> /\ NewPath
           \/ paths # <<>> /\ (NewPath \/ \E S4 \in {RandomSubset(4, 2..19)} : \E o \in S4 : Op(o))
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------------
(* The definitions fit together: sweeps start at the path itself, spanned and filled surfaces have the given edges *)
(* (judged on the newest surfaces) *)
New == {n \in DOMAIN surfs : n > Len(surfs) - 3}
StartsAtPath == \A n \in New : LET s == surfs[n] IN s.k \in {"sweep", "span", "fill", "revolve"} => \A i \in 0..G : Point(s, i, 0) = At(s.p, i)
OppositeEdge == \A n \in New : LET s == surfs[n] IN s.k = "span" => \A i \in 0..G : Point(s, i, G) = At(s.q, i)
FilledEdges == \A n \in New : LET s == surfs[n] IN s.k = "fill" =>
    \A i \in 0..G : Point(s, i, G) = At(s.r, G - i) /\ Point(s, G, i) = At(s.q, i) /\ Point(s, 0, i) = At(s.s, G - i)
CornersAscend == \A n \in New : \A c \in {Corners1(surfs[n]), Corners2(surfs[n])} :
    \A i \in DOMAIN c : 0 < c[i][1] /\ c[i][1] < c[i][2] /\ (i > 1 => FracLess(c[i - 1], c[i]))
BoundaryIsEdges == \A n \in {m \in Sweeps \cap New : surfs[m].cap = <<0, 0>>} : LET e == Edges(surfs[n]) IN
    \A i \in 0..G : At(e[1].path, i) = Point(surfs[n], i, 0) /\ At(e[2].path, i) = Point(surfs[n], i, G)
                    /\ At(e[3].path, i) = Point(surfs[n], 0, i) /\ At(e[4].path, i) = Point(surfs[n], G, i)
Done == Len(hist) = Depth => (~Emit \/ RandomElement(1..3) # 1 \/ PrintT("B@" \o ToJson([ops |-> hist, paths |-> [i \in DOMAIN paths |-> paths[i].name], surfs |-> [i \in DOMAIN surfs |-> surfs[i].name],
                                                              pcolls |-> pcolls, scolls |-> scolls])))
=================================================================================
