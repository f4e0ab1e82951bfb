------------------------------- MODULE SplitCollect -------------------------------
(* Splitting work over threads (property C15), implementation shaped: a caller cuts its items into chunks, starts
   one worker per chunk, joins them in order and returns the collected pieces, or raises what a worker raised.
   Several callers may be at it at the same time.  Every interleaving of the steps is a behaviour. *)
EXTENDS Geo, Json
CONSTANTS Callers, MaxItems, MaxThreads, Emit
VARIABLES threads, jobs, main, work, results, errors, outcome, hist
vars == <<threads, jobs, main, work, results, errors, outcome, hist>>
view == <<threads, jobs, main, work, results, errors, outcome>>

(* numpy's array_split *)
NChunks(n) == Max({Min({threads, n}), 1})
ChunkSize(n, i) == (n \div NChunks(n)) + (IF i <= n % NChunks(n) THEN 1 ELSE 0)
RECURSIVE Before(_, _)
Before(n, i) == IF i = 1 THEN 0 ELSE Before(n, i - 1) + ChunkSize(n, i - 1)
Chunk(n, i) == [k \in 1..ChunkSize(n, i) |-> Before(n, i) + k]
Chunks(c) == 1..NChunks(jobs[c].n)
Computed(chunk) == [k \in DOMAIN chunk |-> 10 * chunk[k]]
Bad(c, i) == ToSet(Chunk(jobs[c].n, i)) \cap jobs[c].bad # {}

Log(e) == hist' = Append(hist, e)
(* The caller starts the next worker *)
Start(c) == /\ main[c].started < NChunks(jobs[c].n) /\ main' = [main EXCEPT ![c].started = @ + 1]
            /\ work' = [work EXCEPT ![c][main[c].started + 1] = "ready"] /\ UNCHANGED <<threads, jobs, results, errors, outcome, hist>>
Begin(c, i) == /\ work[c][i] = "ready" /\ work' = [work EXCEPT ![c][i] = "running"] /\ Log([e |-> "begin", c |-> c, i |-> i])
               /\ UNCHANGED <<threads, jobs, main, results, errors, outcome>>
End(c, i) == /\ work[c][i] = "running" /\ ~Bad(c, i) /\ work' = [work EXCEPT ![c][i] = "ok"] /\ results' = [results EXCEPT ![c][i] = Computed(Chunk(jobs[c].n, i))]
             /\ Log([e |-> "end", c |-> c, i |-> i]) /\ UNCHANGED <<threads, jobs, main, errors, outcome>>
Fail(c, i) == /\ work[c][i] = "running" /\ Bad(c, i) /\ work' = [work EXCEPT ![c][i] = "failed"] /\ errors' = [errors EXCEPT ![c] = Append(@, i)]
              /\ Log([e |-> "fail", c |-> c, i |-> i]) /\ UNCHANGED <<threads, jobs, main, results, outcome>>
Join(c) == /\ main[c].started = NChunks(jobs[c].n) /\ main[c].joined < NChunks(jobs[c].n) /\ work[c][main[c].joined + 1] \in {"ok", "failed"}
           /\ main' = [main EXCEPT ![c].joined = @ + 1] /\ UNCHANGED <<threads, jobs, work, results, errors, outcome, hist>>
Return(c) == /\ main[c].joined = NChunks(jobs[c].n) /\ outcome[c].kind = "none"
             /\ outcome' = [outcome EXCEPT ![c] = IF errors[c] = <<>> THEN [kind |-> "value", v |-> results[c]] ELSE [kind |-> "error", v |-> <<errors[c][1]>>]]
             /\ UNCHANGED <<threads, jobs, main, work, results, errors, hist>>
Returned == \A c \in Callers : outcome[c].kind # "none"

Blank == /\ main = [c \in Callers |-> [started |-> 0, joined |-> 0]] /\ outcome = [c \in Callers |-> [kind |-> "none", v |-> <<>>]]
         /\ errors = [c \in Callers |-> <<>>] /\ hist = <<>>
Fresh == work = [c \in Callers |-> [i \in 1..MaxThreads |-> "new"]] /\ results = [c \in Callers |-> [i \in 1..MaxThreads |-> <<>>]]
Init == /\ threads \in 1..MaxThreads /\ jobs \in [Callers -> {[n |-> n, bad |-> b] : n \in 0..MaxItems, b \in SUBSET (1..MaxItems)}]
        /\ (\A c \in Callers : jobs[c].bad \subseteq 1..jobs[c].n) /\ Blank /\ Fresh
InitSim == threads = 0 /\ jobs = [c \in Callers |-> [n |-> 0, bad |-> {}]] /\ Blank /\ Fresh
RandomJob(c) == LET n == RandomElement(0..MaxItems) IN [n |-> n, bad |-> IF n = 0 \/ RandomElement(1..3) # 1 THEN {} ELSE {RandomElement(1..n), RandomElement(1..n)}]
Choose == threads' = RandomElement(1..MaxThreads) /\ jobs' = TLCEval([c \in Callers |-> RandomJob(c)]) /\ UNCHANGED <<main, work, results, errors, outcome, hist>>
Step == \E c \in Callers : Start(c) \/ Join(c) \/ Return(c) \/ \E i \in Chunks(c) : Begin(c, i) \/ End(c, i) \/ Fail(c, i)
Next == Step
NextSim == IF threads = 0 THEN Choose ELSE Step
Fair == WF_vars(Step)

(* Design *)
Flat(s) == FoldSeq(LAMBDA x, acc : acc \o x, <<>>, s)
Items(n) == [k \in 1..n |-> k]
Partition == threads > 0 => \A c \in Callers : Flat([i \in Chunks(c) |-> Chunk(jobs[c].n, i)]) = Items(jobs[c].n)
NoEmptyChunk == threads > 0 => \A c \in Callers : jobs[c].n > 0 => \A i \in Chunks(c) : ChunkSize(jobs[c].n, i) > 0
InOrder == \A c \in Callers : outcome[c].kind = "value" => Flat([i \in Chunks(c) |-> outcome[c].v[i]]) = [k \in 1..jobs[c].n |-> 10 * k]
(* A failure is never swallowed, and nothing is raised that did not happen *)
Surfaces == \A c \in Callers : (outcome[c].kind = "value" => jobs[c].bad = {}) /\ (outcome[c].kind = "error" => Bad(c, outcome[c].v[1]))
NothingLeftBehind == \A c \in Callers : outcome[c].kind # "none" => \A i \in Chunks(c) : work[c][i] \in {"ok", "failed"}
Once == \A c \in Callers : \A i \in 1..MaxThreads : Cardinality({k \in DOMAIN hist : hist[k].e = "begin" /\ hist[k].c = c /\ hist[k].i = i}) <= 1
Terminates == <>Returned
Show(c) == [n |-> jobs[c].n, bad |-> SetToSortSeq(jobs[c].bad, LAMBDA a, b : a < b), chunks |-> [i \in Chunks(c) |-> Chunk(jobs[c].n, i)], kind |-> outcome[c].kind,
            value |-> IF outcome[c].kind = "value" THEN Flat([i \in Chunks(c) |-> outcome[c].v[i]]) ELSE <<>>]
Done == Returned => (~Emit \/ PrintT("B@" \o ToJson([threads |-> threads, callers |-> [c \in Callers |-> Show(c)], events |-> hist])))
=====================================================================================
