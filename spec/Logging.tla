---------------------------------- MODULE Logging ----------------------------------
(* Verbosity (property C25).  State: the level.  A message is printed if and only if its severity is at least the level; operations say
   something of any severity below Silent, and therefore nothing at level Silent.  printed is the output so far, said all that was ever said with
   the level at that time. *)
EXTENDS Geo, Json
CONSTANTS Ops, MaxSteps, Emit
VARIABLES level, said, printed, hist
vars == <<level, said, printed, hist>>
Debug == 0
Info == 1
Warning == 2
Error == 3
Silent == 4
Levels == Debug..Silent
Severities == Debug..Error
Names == [silent |-> Silent, error |-> Error, warning |-> Warning, info |-> Info, debug |-> Debug]
(* At startup: the level in the environment in capitals or not, or Info when there is none or an unknown one *)
FromEnv(e) == IF e \in DOMAIN Names THEN Names[e] ELSE Info
Environments == DOMAIN Names \cup {"", "unset", "loud", "2", "log_info", "__class__", "mro", "real"}

Visible(sev, l) == sev >= l
Init == level \in {FromEnv(e) : e \in Environments} /\ said = <<>> /\ printed = <<>> /\ hist = <<>>
SetLevel(l) == level' = l /\ hist' = Append(hist, [op |-> "level", level |-> l]) /\ UNCHANGED <<said, printed>>
(* Something which is no level is refused *)
Refused(x) == hist' = Append(hist, [op |-> "refused", what |-> x]) /\ UNCHANGED <<level, said, printed>>
Say(sev) == /\ said' = Append(said, <<sev, level>>)
            /\ printed' = IF Visible(sev, level) THEN Append(printed, sev) ELSE printed
            /\ hist' = Append(hist, [op |-> "say", sev |-> sev, visible |-> Visible(sev, level)]) /\ UNCHANGED level
Next == Len(hist) < MaxSteps /\ ((\E l \in Levels : SetLevel(l)) \/ (\E s \in Severities : Say(s)) \/ Refused("int"))
ExactlyVisible == printed = [i \in 1..Len(SelectSeq(said, LAMBDA m : m[1] >= m[2])) |-> SelectSeq(said, LAMBDA m : m[1] >= m[2])[i][1]]
SilentSaysNothing == [][level = Silent /\ level' = Silent => printed' = printed]_vars
LevelKept == [][(\E s \in Severities : hist' = Append(hist, [op |-> "say", sev |-> s, visible |-> Visible(s, level)])) => level' = level]_vars
(* A higher level prints a subset: a message hidden at some level is hidden at all higher ones *)
Monotone == \A s \in Severities, l \in Levels : \A k \in Levels : Visible(s, k) /\ l <= k => Visible(s, l)

---------------------------------------------------------------------------------
R(S) == RandomElement(S)
Operate(o) == hist' = Append(hist, [op |-> "do", what |-> o, level |-> level]) /\ UNCHANGED <<level, said, printed>>
InitSim == level = Info /\ said = <<>> /\ printed = <<>> /\ hist = <<>>
NextSim == Len(hist) < MaxSteps /\ \E w \in {R(1..10)}, l \in {R(Levels)}, s \in {R(Severities)}, x \in {R({"int", "name", "none"})}, o \in {R(Ops)} :
             CASE w <= 3 -> SetLevel(l) [] w = 4 -> Refused(x) [] w = 5 -> Say(s) [] OTHER -> Operate(o)
Done == Len(hist) = MaxSteps => (~Emit \/ PrintT("B@" \o ToJson(hist)))
EnvInit == said \in Environments /\ level = FromEnv(said) /\ printed = <<>> /\ hist = <<>>
EnvDone == ~Emit \/ PrintT("B@" \o ToJson([env |-> said, level |-> level]))
=====================================================================================
