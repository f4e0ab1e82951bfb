---------------------------------- MODULE Tracer ----------------------------------
(* Trajectories are seamless histories (property C20).  The tracer works in two layers: a kernel fills a block of B entries,
   starting from the entry already there, until the particle is outside or the block is full; the wrapper keeps calling it,
   continuing from the last entry, and joins the blocks.  Entries are numbered by the step of the particle, which leaves the
   bounds at step L.  Design: every history of the two layers yields exactly the entries 0..L, for all B and L. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxB, MaxL, TraceMode
VARIABLES B, L, block, out, mode, tr, n
vars == <<B, L, block, out, mode, tr, n>>

Outside(step) == step >= L
Init == B \in 2..MaxB /\ L \in 0..MaxL /\ block = <<0>> /\ out = <<>> /\ mode = "kernel" /\ tr = 0 /\ n = 0
LastOf(s) == s[Len(s)]
(* The kernel stops when the last entry is outside or the block full; a step may be rejected and tried again *)
Accept == mode = "kernel" /\ ~Outside(LastOf(block)) /\ Len(block) < B /\ block' = Append(block, LastOf(block) + 1) /\ UNCHANGED <<B, L, out, mode, tr, n>>
Return == mode = "kernel" /\ (Outside(LastOf(block)) \/ Len(block) = B) /\ mode' = "wrapper" /\ UNCHANGED <<B, L, block, out, tr, n>>
(* The first entry of every later block repeats the last of the one before *)
Join == IF out = <<>> THEN block ELSE out \o Tail(block)
Continue == mode = "wrapper" /\ Len(block) = B /\ out' = Join /\ block' = <<LastOf(block)>> /\ mode' = "kernel" /\ UNCHANGED <<B, L, tr, n>>
Finish == mode = "wrapper" /\ Len(block) < B /\ out' = Join /\ mode' = "done" /\ block' = <<>> /\ UNCHANGED <<B, L, tr, n>>
Next == Accept \/ Return \/ Continue \/ Finish
Seamless == \A i \in 1..Len(out) : out[i] = i - 1
Complete == mode = "done" => Len(out) = L + 1 /\ \A i \in 1..Len(out) : Outside(out[i]) <=> i = Len(out)
Bounded == Len(block) <= B
Terminates == <>(mode = "done")
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

---------------------------------------------------------------------------------
(* Traces of the real tracer.  An event is a run of equal entries: c entries, each dt after the one before (in thousandths of
   the largest step at the smallest speed, rounded up), inside or outside of the bounds, continued at most gap (1e-6 mm) away
   from where the velocities lead.  The first event is the initial condition. *)
Traces == JsonDeserialize("traces.json")
Rec == Traces[tr]
Ev == Rec.ev
TraceInit == tr \in DOMAIN Traces /\ n = 0 /\ B = 0 /\ L = 0 /\ block = <<>> /\ out = 0 /\ mode = ""
TraceNext == n < Len(Ev) /\ n' = n + 1 /\ out' = out + Ev[n + 1].c /\ UNCHANGED <<B, L, block, mode, tr>>
Is == TraceMode /\ n > 0
E == Ev[n]
LastEvent == n = Len(Ev)
StartsAtStart == Is /\ n = 1 => E.c = 1 /\ Rec.start
EqualLength == Is => Rec.times = Rec.positions
Increasing == Is /\ n > 1 => E.dt > 0
NoneMissing == Is /\ n > 1 => E.dt <= 1001
NoGap == Is /\ n > 1 => E.gap <= Rec.tol
InsideBefore == Is /\ ~LastEvent => E.inside
EndsOutside == Is /\ LastEvent => ~E.inside /\ E.c = 1
(* Flights without a field take steps of equal length, which determines the number of entries *)
Count == Is /\ LastEvent => out = Rec.times /\ (Rec.exit >= 0 => out = Rec.exit + 1)
=====================================================================================
