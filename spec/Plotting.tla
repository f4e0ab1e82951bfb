--------------------------------- MODULE Plotting ---------------------------------
(* What plots show (property C26).  A session is a list of figures.  Things are drawn in the current figure (the last
   one, made when there is none) or in a figure the caller kept; showing displays every figure of the session, in order,
   with everything that was drawn in it, and starts a new session.
     Design  exhaustively: sessions with abstract things (numbers) up to MaxOps operations;
     Gen     random sessions with meshes, trajectories, charges and equipotential lines, with what has to be visible. *)
EXTENDS MeshModel, Json, TLC
CONSTANTS Sim, MaxOps, Emit
VARIABLES figs,     \* the session: [id, legend, items]
          shown,    \* everything displayed so far, per call of show a sequence of figures
          log,      \* operations
          old       \* figures of earlier sessions
vars == <<figs, shown, log, old>>

Ids == 1..20
NewId == Len(log) + 1
Current(f, id) == IF f = <<>> THEN <<[id |-> id, legend |-> TRUE, items |-> <<>>]>> ELSE f
AppendTo(f, k, x) == [f EXCEPT ![k].items = Append(@, x)]

Init == figs = <<>> /\ shown = <<>> /\ log = <<>> /\ old = <<>>
Figure(b) == /\ figs' = Append(figs, [id |-> NewId, legend |-> b, items |-> <<>>])
             /\ log' = Append(log, [op |-> "figure", legend |-> b])
             /\ UNCHANGED <<shown, old>>
(* get the current figure and keep it *)
Get == /\ figs' = Current(figs, NewId)
       /\ log' = Append(log, [op |-> "get", id |-> Last(Current(figs, NewId)).id])
       /\ UNCHANGED <<shown, old>>
Draw(x) == /\ LET f == Current(figs, NewId) IN figs' = AppendTo(f, Len(f), x)
           /\ log' = Append(log, [op |-> "draw", item |-> x])
           /\ UNCHANGED <<shown, old>>
DrawIn(k, x) == /\ k \in DOMAIN figs
                /\ figs' = AppendTo(figs, k, x)
                /\ log' = Append(log, [op |-> "draw in", id |-> figs[k].id, item |-> x])
                /\ UNCHANGED <<shown, old>>
Show == /\ shown' = Append(shown, figs)
        /\ old' = old \o figs
        /\ figs' = <<>>
        /\ log' = Append(log, [op |-> "show"])
Next == /\ Len(log) < MaxOps
        /\ \/ \E b \in BOOLEAN : Figure(b)
           \/ Get
           \/ Draw(NewId)
           \/ \E k \in DOMAIN figs : DrawIn(k, NewId)
           \/ Show
Spec == Init /\ [][Next]_vars

(* Everything drawn is displayed exactly once, by the first call of show afterwards, and nothing else is *)
Flat(ff) == FoldSeq(LAMBDA a, b : a \o b, <<>>, ff)
ItemsOf(ff) == Flat([i \in DOMAIN ff |-> ff[i].items])
Drawn == {log[i].item : i \in {j \in DOMAIN log : log[j].op \in {"draw", "draw in"}}}
Conserved == LET s == Flat(shown)  all == ItemsOf(s) \o ItemsOf(figs)
             IN  Len(all) = Cardinality(Drawn) /\ ToSet(all) = Drawn
Shows == {j \in DOMAIN log : log[j].op = "show"}
FirstShow(i) == {j \in Shows : j > i /\ \A h \in Shows : h > i => j <= h}
(* abstract items carry the number of the operation that drew them *)
InTime == \A i \in Drawn : \A j \in FirstShow(i) :
              i \in ToSet(ItemsOf(shown[Cardinality({h \in Shows : h <= j})]))
Ordered == \A k \in DOMAIN shown : \A f \in DOMAIN shown[k] : \A a, b \in DOMAIN shown[k][f].items :
              a < b => shown[k][f].items[a] < shown[k][f].items[b]
UniqueIds == LET s == Flat(shown) \o figs IN Cardinality({s[i].id : i \in DOMAIN s}) = Len(s)
---------------------------------------------------------------------------------
(* What has to be visible of a mesh: every element once, in the colour of one of its names that have one *)
Grey == "grey"
ColoursOf(nm, cols) == IF nm \cap DOMAIN cols = {} THEN {Grey} ELSE {cols[n] : n \in nm \cap DOMAIN cols}
Cells(m, cols) ==
    [i \in DOMAIN m.l |-> [p |-> SubSeq(Positions(m.pts, m.l[i]), 1, 2), c |-> ColoursOf(NamesOf(m.gl, i), cols)]]
    \o [i \in DOMAIN m.t |-> [p |-> SubSeq(Positions(m.pts, m.t[i]), 1, 3), c |-> ColoursOf(NamesOf(m.gt, i), cols)]]
(* Normals, without length: right-handed for triangles, to the right of a line in the xz-plane *)
NormalOf(p) == IF Len(p) = 3 THEN Cross(VSub(p[2], p[1]), VSub(p[3], p[1])) ELSE <<p[2][3] - p[1][3], 0, -(p[2][1] - p[1][1])>>
(* Times six, twice the centre of a line and three times the centre of a triangle *)
Centre6(p) == IF Len(p) = 3 THEN VScale(2, VAdd(p[1], VAdd(p[2], p[3]))) ELSE VScale(3, VAdd(p[1], p[2]))
Arrows(m, cols) == LET c == Cells(m, cols) IN [i \in DOMAIN c |-> [o |-> Centre6(c[i].p), n |-> NormalOf(c[i].p)]]

(* Trajectories: all pieces between consecutive samples within the limits; pieces that bridge a part outside may be drawn *)
None == 99
Within(p, lim) == \A i \in 1..3 : (lim[i][1] = None \/ lim[i][1] <= p[i]) /\ (lim[i][2] = None \/ p[i] <= lim[i][2])
Kept(t, lim) == SelectSeq([i \in DOMAIN t |-> i], LAMBDA i : Within(t[i], lim))
Pieces(t, lim) == LET k == Kept(t, lim)
                  IN  [i \in 1..(IF Len(k) = 0 THEN 0 ELSE Len(k) - 1) |-> [p |-> <<t[k[i]], t[k[i + 1]]>>, must |-> k[i + 1] = k[i] + 1]]

Names == {"a", "b", "c", "d"}
Palette == <<"red", "lightblue", "#123456", "gold">>
RandomColours(u) == LET D == R(SUBSET Names)  o == R(0..3) IN TLCEval([n \in D |-> Palette[1 + ((o + (CHOOSE k \in 1..4 : <<"a", "b", "c", "d">>[k] = n)) % 4)]])
FlatMesh(m) == [m EXCEPT !.pts = TLCEval([i \in DOMAIN m.pts |-> <<m.pts[i][1], 0, m.pts[i][3]>>])]
(* Sessions that begin with making a figure are galleries: many figures before anything is displayed *)
Gallery == log # <<>> /\ log[1].op = "figure"
RandomItem(u) ==
    LET kind == IF Gallery THEN R({"mesh", "traj"}) ELSE R({"mesh", "traj", "charge", "charge", "equi"})
    IN  CASE kind = "mesh" ->
              LET raw == TLCEval(AnyMesh(R({<<2, 3>>, <<2, 3>>, <<4, 3>>, <<4, 6>>}), Names))
                  m == TLCEval(Cleanup(IF R(1..3) = 1 THEN FlatMesh(raw) ELSE raw))
                  cols == TLCEval(RandomColours(u))
                  cells == TLCEval(Cells(m, cols))
                  normals == R(BOOLEAN) /\ \A i \in DOMAIN cells : NormalOf(cells[i].p) # Zero
              IN  IF Len(m.l) + Len(m.t) = 0 THEN [kind |-> "skip"]
                  ELSE [kind |-> "mesh", mesh |-> m, cols |-> cols, normals |-> normals, cells |-> cells,
                        arrows |-> IF normals THEN Arrows(m, cols) ELSE <<>>]
           [] kind = "traj" ->
              LET ts == TLCEval([i \in 1..R(0..3) |-> TLCEval([j \in 1..R({0, 1, 2, 3, 5, 8}) |-> <<R(-3..3), R(-3..3), R(-3..3)>>])])
                  lim == TLCEval([i \in 1..3 |-> <<R({None, None, None, -2, -1, 0}), R({None, None, None, 0, 1, 2})>>])
              IN  [kind |-> "traj", ts |-> ts, lim |-> lim, col |-> R({"green", "lightsalmon", "#00AA00"}),
                   pieces |-> Flat([i \in DOMAIN ts |-> Pieces(ts[i], lim)])]
           [] kind = "charge" -> [kind |-> "charge", scene |-> R(1..10), map |-> R({"coolwarm", "viridis"})]
           [] OTHER -> [kind |-> "equi", scene |-> R(1..10), surface |-> R(1..4), n |-> <<R(2..6), R(2..6)>>, lines |-> R({1, 3, 10})]

Emission == [log |-> log, shown |-> [i \in DOMAIN shown |-> [k \in DOMAIN shown[i] |-> [id |-> shown[i][k].id, legend |-> shown[i][k].legend, n |-> Len(shown[i][k].items), items |-> shown[i][k].items]]]]
SimNext == \E x \in {RandomItem(Len(log))}, r \in {IF log = <<>> THEN R(1..12) ELSE IF Gallery THEN R({1, 1, 1, 5, 7}) ELSE R(1..12)} :
               IF Len(log) >= (IF Gallery THEN MaxOps + 4 ELSE MaxOps) THEN Show
               ELSE IF r = 1 THEN Figure(R(BOOLEAN)) ELSE IF r = 2 THEN Get ELSE IF r = 3 THEN Show
               ELSE IF x.kind = "skip" THEN Get
               ELSE IF r <= 6 /\ figs # <<>> THEN DrawIn(R(DOMAIN figs), x) ELSE Draw(x)
Finished == log # <<>> /\ Len(log) > (IF Gallery THEN MaxOps + 4 ELSE MaxOps)
SimSpec == Init /\ [][~Finished /\ SimNext]_vars
Done == (Emit /\ Finished) => PrintT("B@" \o ToJson(Emission))
===================================================================================
