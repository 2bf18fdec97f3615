--------------------------- MODULE ExecuterAsync ---------------------------
(* The executer over a device handle whose system calls complete later (Windows'
   overlapped I/O), used by several coroutines: a coroutine is suspended from the
   moment the operating system takes its request until it decides on it; the
   others go on meanwhile, in any order.  The answer comes with the decision, and
   is put on a stack from which the next one that processes takes it.
   Every step emits the events of Executer it amounts to.

   Environment: which coroutine runs which operation, in which order the operating
   system decides, refusals, callbacks that raise.  wait() is not used while a
   request is on its way: it has nothing to wait for.                             *)
EXTENDS Executer, Json, TLC
CONSTANTS Max, Ops, Threads, Faults, Export
VARIABLES c, idx, pend, inc, ctl, run, nreq, left, faults, script, bad
vars == <<c, idx, pend, inc, ctl, run, nreq, left, faults, script, bad>>
view == <<c, idx, pend, inc, ctl, run, nreq, left, faults, bad>>

Th == 1..Threads
Exc(x) == [t |-> "x", v |-> <<x>>]
OutOf(r, k) == CASE k = "ok" -> [t |-> "b", v |-> <<r>>] [] OTHER -> Exc("AsiSCSIError")
Idle == [pc |-> "idle", op |-> "-", req |-> 0, kind |-> "-", id |-> -1, got |-> <<>>, exc |-> Nil]

Init ==
    /\ c = Start(Max, TRUE) /\ idx = 0 /\ pend = <<>> /\ inc = <<>> /\ ctl = [n \in Th |-> Idle] /\ run = 0
    /\ nreq = 0 /\ left = Ops /\ faults = Faults /\ script = <<>> /\ bad = {}

RECURSIVE Feed(_, _)
Feed(p, es) == IF es = <<>> THEN p ELSE Feed(<<After(p[1], es[1]), p[2] \cup Bad(p[1], es[1])>>, SubSeq(es, 2, Len(es)))
Emits(es) == LET p == Feed(<<c, {}>>, es) IN c' = p[1] /\ bad' = bad \cup p[2]
Emit(e) == Emits(<<e>>)
Silent == UNCHANGED <<c, bad>>
Switch(n) == IF c.th = n THEN <<>> ELSE <<[ev |-> "switch", th |-> n]>>
Choose(x) == script' = Append(script, x)
Here == ctl[run]
At_(pc) == run # 0 /\ Here.pc = pc
Set(f) == ctl' = [ctl EXCEPT ![run] = f]
Done == Set(Idle) /\ run' = 0
Flying == {n \in Th : ctl[n].pc = "flight"}
HasId(id) == \E i \in DOMAIN pend : pend[i].id = id
ById(id) == pend[CHOOSE i \in DOMAIN pend : pend[i].id = id]
Drop(id) == SelectSeq(pend, LAMBDA x : x.id # id)
RECURSIVE Free(_)
Free(i) == IF HasId(i) THEN Free((i + 1) % Max) ELSE i

Operate(n, op, kind) ==
    /\ run = 0 /\ ctl[n].pc = "idle" /\ left > 0 /\ left' = left - 1
    /\ op # "send" => kind = "cb"
    /\ op = "wait" => Flying = {}
    /\ nreq' = nreq + 1 /\ run' = n
    /\ Emits(Switch(n) \o <<[ev |-> "op", op |-> op, req |-> nreq + 1, cb |-> IF kind = "none" THEN "none" ELSE "cb"]>>)
    /\ ctl' = [ctl EXCEPT ![n] = [Idle EXCEPT !.pc = CASE op \in {"send", "call"} -> "alloc" [] op = "wait" -> "loop" [] OTHER -> "query",
                                              !.op = op, !.req = nreq + 1, !.kind = kind]]
    /\ Choose([c |-> "op", th |-> n, op |-> op, kind |-> kind])
    /\ UNCHANGED <<idx, pend, inc, faults>>
Query ==
    /\ At_("query")
    /\ Emit([ev |-> "ret", op |-> "full", req |-> Here.req, out |-> [t |-> "i", v |-> IF Len(pend) >= Max THEN <<1>> ELSE <<>>]])
    /\ Done /\ UNCHANGED <<idx, pend, inc, nreq, left, faults, script>>
Alloc ==
    /\ At_("alloc")
    /\ IF Len(pend) >= Max
       THEN /\ Emit([ev |-> "ret", op |-> Here.op, req |-> Here.req, out |-> Exc(QueueFull)])
            /\ Done /\ UNCHANGED <<idx, pend>>
       ELSE LET id == Free(idx)
            IN /\ idx' = (id + 1) % Max
               /\ pend' = Append(pend, [id |-> id, req |-> Here.req, cb |-> IF Here.op = "call" THEN "call" ELSE Here.kind])
               /\ Emit([ev |-> "hand", id |-> id, req |-> Here.req])
               /\ Set([Here EXCEPT !.pc = "flight", !.id = id]) /\ run' = 0
    /\ UNCHANGED <<inc, nreq, left, faults, script>>
\* the operating system decides on the request of coroutine n, which goes on
Decide(n, k) ==
    /\ run = 0 /\ ctl[n].pc = "flight" /\ run' = n
    /\ LET f == ctl[n]
       IN IF k = "refused"
          THEN /\ faults > 0 /\ faults' = faults - 1
               /\ Emits(Switch(n) \o <<[ev |-> "submitfail", id |-> f.id, req |-> f.req, out |-> Exc("OSError")]>>)
               /\ pend' = Drop(f.id) /\ UNCHANGED inc
               /\ ctl' = [ctl EXCEPT ![n] = [f EXCEPT !.pc = "raise", !.exc = Exc("OSError")]]
          ELSE /\ Emits(Switch(n) \o <<[ev |-> "submit", id |-> f.id, req |-> f.req, out |-> OutOf(f.req, k)]>>)
               /\ inc' = Append(inc, [id |-> f.id, out |-> OutOf(f.req, k)]) /\ UNCHANGED <<pend, faults>>
               /\ ctl' = [ctl EXCEPT ![n].pc = "sent"]
    /\ Choose([c |-> "go", th |-> n, ok |-> k # "refused", out |-> k])
    /\ UNCHANGED <<idx, nreq, left>>
Sent ==
    /\ At_("sent")
    /\ IF Here.op = "send"
       THEN Emit([ev |-> "ret", op |-> "send", req |-> Here.req, out |-> Nil]) /\ Done
       ELSE Set([Here EXCEPT !.pc = "loop"]) /\ UNCHANGED run /\ Silent
    /\ UNCHANGED <<idx, pend, inc, nreq, left, faults, script>>
Raise ==
    /\ At_("raise")
    /\ Emit([ev |-> "ret", op |-> Here.op, req |-> Here.req, out |-> Here.exc])
    /\ Done /\ UNCHANGED <<idx, pend, inc, nreq, left, faults, script>>
LoopEnds ==
    /\ At_("loop")
    /\ IF Here.op = "wait" THEN pend = <<>> ELSE Here.got # <<>>
    /\ Emit([ev |-> "ret", op |-> Here.op, req |-> Here.req, out |-> IF Here.op = "wait" THEN Nil ELSE Here.got[1]])
    /\ Done /\ UNCHANGED <<idx, pend, inc, nreq, left, faults, script>>
\* the newest answer is taken and delivered
Process ==
    /\ At_("loop") /\ IF Here.op = "wait" THEN pend # <<>> ELSE Here.got = <<>>
    /\ inc # <<>>
    /\ LET a == inc[Len(inc)]
           p == ById(a.id)
       IN /\ inc' = SubSeq(inc, 1, Len(inc) - 1)
          /\ pend' = Drop(a.id)
          /\ CASE p.cb = "none" -> Silent /\ UNCHANGED ctl
               [] p.cb = "call" -> Silent /\ ctl' = [k \in Th |-> IF ctl[k].op = "call" /\ ctl[k].req = p.req
                                                               THEN [ctl[k] EXCEPT !.got = <<a.out>>] ELSE ctl[k]]
               [] p.cb = "cb" -> /\ Emits(<<[ev |-> "cb", req |-> p.req, out |-> a.out], [ev |-> "cbret", req |-> p.req, out |-> Nil]>>)
                                 /\ UNCHANGED ctl
               [] OTHER -> /\ Emits(<<[ev |-> "cb", req |-> p.req, out |-> a.out],
                                      [ev |-> "cbret", req |-> p.req, out |-> Exc("CallbackError")]>>)
                           /\ Set([Here EXCEPT !.pc = "raise", !.exc = Exc("CallbackError")])
    /\ UNCHANGED <<idx, run, nreq, left, faults, script>>

Next ==
    \/ \E n \in Th, op \in {"send", "call", "wait", "full"}, k \in {"cb", "none", "raise"} : Operate(n, op, k)
    \/ \E n \in Th, k \in {"ok", "err", "refused"} : Decide(n, k)
    \/ Query \/ Alloc \/ Sent \/ Raise \/ LoopEnds \/ Process
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

AlwaysAllowed == bad = {}
Bounded == Len(pend) <= Max
Distinct == \A i, j \in DOMAIN pend : i # j => pend[i].id # pend[j].id
\* every pending request is on its way or has an answer that waits to be delivered
Consistent == run = 0 => {x.id : x \in Range(pend)} = {ctl[n].id : n \in Flying} \cup {x.id : x \in Range(inc)}
Separate == \A i, j \in DOMAIN inc : i # j => inc[i].id # inc[j].id
Finished == run = 0 /\ left = 0 /\ Flying = {}
NeverStuck == ENABLED Next \/ Finished
Terminates == <>Finished
Shown == (Export /\ Finished) => PrintT(<<"BEH", ToJson([max |-> Max, script |-> script])>>)
=============================================================================
