---------------------------------- MODULE Scenes ----------------------------------
(* Problems to solve: named parts of simple shape, one part per slot of the optical axis, with what is applied to
   every name.  Shared by the specifications about solved fields.  A part fills at most six units of its slot of
   eight, so the planes between slots are free. *)
EXTENDS Geo
Pitch == 8
ElectricSource == {"fixed", "fun"}
MagneticSource == {"potential", "current"}
Sources == ElectricSource \union MagneticSource
Materials == {"dielectric", "magnetizable"}

(* Shapes by symmetry and by what they have to be: sheets can only be electrodes, materials are solid bodies *)
Sheets(sym) == IF sym = "radial" THEN {"disk", "tube", "cone"} ELSE {"plate", "annulus"}
Bodies(sym) == IF sym = "radial" THEN {"ring", "ball", "torus"} ELSE {"box", "ball"}
ShapesFor(sym, kind) == CASE kind = "current" -> {"coil", "round coil"}
                          [] kind \in Materials -> Bodies(sym)
                          [] OTHER -> Sheets(sym) \union Bodies(sym)
RandomPart(sym, nm, kind, slot) ==
    [nm |-> nm, sh |-> RandomElement(ShapesFor(sym, kind)), z |-> Pitch * slot, lo |-> RandomElement(1..3), w |-> RandomElement(1..3), h |-> RandomElement(2..4)]
(* A list of kinds, one per name; every name has one or two parts *)
Letters == <<"a", "b", "c", "d", "e", "f">>
RandomValue(kind, vals) == IF kind \in Materials THEN RandomElement({<<2, 1>>, <<4, 1>>, <<1, 2>>, <<10, 1>>, <<1, 1>>}) ELSE <<RandomElement(vals), RandomElement({1, 2})>>
RECURSIVE PartsFrom(_, _, _, _)
PartsFrom(sym, kinds, reps, i) ==
    IF i > Len(kinds) THEN <<>>
    ELSE LET before == FoldFunctionOnSet(LAMBDA a, b : a + b, 0, reps, 1..(i - 1))
         IN  [k \in 1..reps[i] |-> RandomPart(sym, Letters[i], kinds[i], before + k - 1)] \o PartsFrom(sym, kinds, reps, i + 1)
FixedScene(sym, kinds, vals, most) ==
    LET reps == TLCEval([i \in DOMAIN kinds |-> RandomElement(1..most)])
    IN  [sym |-> sym, names |-> TLCEval([i \in DOMAIN kinds |-> [nm |-> Letters[i], kind |-> kinds[i], v |-> RandomValue(kinds[i], vals)]]), parts |-> TLCEval(PartsFrom(sym, kinds, reps, 1))]
RandomKinds(K, lo, hi) == LET n == RandomElement(lo..hi) IN TLCEval([i \in 1..n |-> RandomElement(K)])
(* Kinds with at least one source *)
WithSource(K, lo, hi) == LET k == RandomKinds(K, lo, hi) IN TLCEval([k EXCEPT ![RandomElement(DOMAIN k)] = RandomElement(K \ Materials)])
RandomScene(sym, K, lo, hi, vals) == FixedScene(sym, WithSource(IF sym = "3d" THEN K \ {"current"} ELSE K, lo, hi), vals, IF sym = "3d" THEN 1 ELSE 2)

SourceNames(s) == {i \in DOMAIN s.names : s.names[i].kind \in Sources}
MaterialNames(s) == DOMAIN s.names \ SourceNames(s)
===================================================================================
