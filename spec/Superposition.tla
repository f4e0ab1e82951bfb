------------------------------- MODULE Superposition -------------------------------
(* Superposition (property C13).  An excitation gives every source a value; the field is linear in those values,
   for given materials.  The unit fields belong to the sources with a non-zero value.  State: a scene, the unit
   excitations made of it and the settings (values) a user then combines the unit fields with. *)
EXTENDS Scenes, Json
CONSTANTS Depth, Scenes0, Kinds, Most, Vals, Emit
VARIABLES scene, hist
vars == <<scene, hist>>

Val(i) == scene.names[i].v[1]
(* Values are kept over the common denominator of a name; units of a name: value v of the setting is v/den *)
NonZero == {i \in SourceNames(scene) : Val(i) # 0}
Vector(vals) == [i \in DOMAIN scene.names |-> IF i \in SourceNames(scene) THEN vals[i] ELSE 0]
Own == Vector([i \in DOMAIN scene.names |-> Val(i)])
(* The excitation of a unit field: the source at one, other sources at zero, materials as they are *)
Unit1(i) == [j \in DOMAIN scene.names |-> IF j = i THEN 1 ELSE 0]
Combine(vals) == [j \in DOMAIN scene.names |-> FoldFunctionOnSet(LAMBDA a, b : a + b, 0, [i \in NonZero |-> vals[i] * Unit1(i)[j]], NonZero)]
(* Settings: other values for the non-zero sources *)
Settings == IF Sim THEN {TLCEval([i \in DOMAIN scene.names |-> IF i \in NonZero THEN RandomElement(Vals) ELSE 0])} ELSE [DOMAIN scene.names -> Vals]
SetValues == \E w \in Settings : (\A i \in DOMAIN w : i \notin NonZero => w[i] = 0) = TRUE /\ hist' = Append(hist, [vals |-> w, field |-> Combine(w)]) /\ UNCHANGED scene

Init == scene \in Scenes0 /\ hist = <<[vals |-> Own, field |-> Combine(Own)]>>
NextSim == IF scene.names = <<>> THEN scene' = RandomScene(scene.sym, Kinds, 1, Most, Vals) /\ hist' = <<>>
           ELSE IF hist = <<>> THEN hist' = <<[vals |-> Own, field |-> Combine(Own)]>> /\ UNCHANGED scene
           ELSE Len(hist) < Depth /\ SetValues
InitSim == scene \in {[sym |-> s, names |-> <<>>, parts |-> <<>>] : s \in {"radial", "3d"}} /\ hist = <<>>
Next == Len(hist) < Depth /\ SetValues

(* Design: combining unit excitations with any values is the excitation with those values *)
CombineIsDirect == \A k \in DOMAIN hist : hist[k].field = Vector(hist[k].vals)
OnePerSource == \A i \in NonZero : scene.names[i].kind \notin Materials
SmallScenes == {[sym |-> "radial", parts |-> <<>>, names |-> <<[nm |-> "a", kind |-> k, v |-> <<x, 1>>], [nm |-> "b", kind |-> l, v |-> <<y, 1>>], [nm |-> "c", kind |-> "dielectric", v |-> <<2, 1>>]>>] :
                    k \in {"fixed", "potential"}, l \in {"fixed", "current"}, x \in {0, 2}, y \in {-1, 1}}
Done == Len(hist) = Depth => (~Emit \/ RandomElement(1..8) # 1 \/ PrintT("B@" \o ToJson([scene |-> scene, units |-> [i \in DOMAIN scene.names |-> i \in NonZero], settings |-> hist])))
====================================================================================
