---------------------------- MODULE ExecuterAlgo ----------------------------
(* The executer as it is implemented: a packet index that is advanced around
   0..Max-1 and skips ids in use, a table of pending packets, one loop per wait or
   call that reads an answer, looks its packet up and runs its callback.
   Every step emits the event of Executer it amounts to; AlwaysAllowed says the
   algorithm never does what Executer forbids.  script records the environment's
   choices, so that the same behaviour can be replayed on the real code.

   Environment: which operations are started (at the top level, inside callbacks,
   or by another greenlet right after a submission), which submissions fail, which
   pending request the device answers next and how, answers to unknown packets,
   failing reads, callbacks that raise, interruptions while other greenlets run.  *)
EXTENDS Executer, Json, TLC
CONSTANTS Max, Ops, Nested, Faults, Probe, Export
VARIABLES c, idx, pend, dev, ctl, nreq, left, nestleft, faults, script, bad
vars == <<c, idx, pend, dev, ctl, nreq, left, nestleft, faults, script, bad>>
view == <<c, idx, pend, dev, ctl, nreq, left, nestleft, faults, bad>>

Data(r) == [t |-> "b", v |-> <<r>>]
Exc(x) == [t |-> "x", v |-> <<x>>]
OutOf(r, k) == CASE k = "ok" -> Data(r) [] k = "none" -> Nil [] OTHER -> Exc("AsiSCSIError")

Init ==
    /\ c = Start(Max, FALSE) /\ idx = 0 /\ pend = <<>> /\ dev = <<>> /\ ctl = <<>> /\ nreq = 0
    /\ left = Ops /\ nestleft = Nested /\ faults = Faults /\ script = <<>> /\ bad = {}

Emit(e) == bad' = bad \cup Bad(c, e) /\ c' = After(c, e)
Silent == UNCHANGED <<c, bad>>
Choose(x) == script' = Append(script, x)
Here == ctl[Len(ctl)]
At_(pc) == ctl # <<>> /\ Here.pc = pc
Goto(pc) == ctl' = [ctl EXCEPT ![Len(ctl)].pc = pc]
Done == ctl' = SubSeq(ctl, 1, Len(ctl) - 1)
Ids == {pend[i].id : i \in DOMAIN pend}
HasId(id) == id \in Ids
ById(id) == pend[CHOOSE i \in DOMAIN pend : pend[i].id = id]
Drop(id) == SelectSeq(pend, LAMBDA x : x.id # id)

CbKinds == {"cb", "none", "raise", "nest"}
Begin(op, kind, depth) ==
    /\ nreq' = nreq + 1
    /\ Emit([ev |-> "op", op |-> op, req |-> nreq + 1, cb |-> IF kind = "none" THEN "none" ELSE "cb"])
    /\ ctl' = Append(ctl, [pc |-> CASE op \in {"send", "call"} -> "alloc" [] op = "wait" -> "loop" [] OTHER -> "query",
                           op |-> op, req |-> nreq + 1, kind |-> kind, id |-> -1, exc |-> Nil, got |-> <<>>])
\* a top level operation
Operate(op, kind) ==
    /\ ctl = <<>> /\ left > 0 /\ left' = left - 1
    /\ op # "send" => kind = "cb"
    /\ Begin(op, kind, 0)
    /\ Choose([c |-> "op", op |-> op, kind |-> kind])
    /\ UNCHANGED <<idx, pend, dev, nestleft, faults>>
\* an operation started inside a callback, or by another greenlet after a submission or delivery
Resume(pc) == CASE pc = "sub" -> "sent" [] pc = "after" -> "loop" [] OTHER -> "cbdone"
Nest(op, kind) ==
    /\ nestleft > 0 /\ nestleft' = nestleft - 1
    /\ op # "send" => kind = "cb"
    /\ \/ At_("nestcb")
       \/ At_("sub") \/ At_("after")
    /\ nreq' = nreq + 1
    /\ Emit([ev |-> "op", op |-> op, req |-> nreq + 1, cb |-> IF kind = "none" THEN "none" ELSE "cb"])
    /\ ctl' = Append([ctl EXCEPT ![Len(ctl)].pc = Resume(@)],
                     [pc |-> CASE op \in {"send", "call"} -> "alloc" [] op = "wait" -> "loop" [] OTHER -> "query",
                      op |-> op, req |-> nreq + 1, kind |-> kind, id |-> -1, exc |-> Nil, got |-> <<>>])
    /\ Choose([c |-> "nest", op |-> op, kind |-> kind])
    /\ UNCHANGED <<idx, pend, dev, left, faults>>
NoNest ==
    /\ At_("sub") \/ At_("nestcb") \/ At_("after")
    /\ Goto(Resume(Here.pc))
    /\ Choose([c |-> "nest", op |-> "-", kind |-> "-"])
    /\ Silent /\ UNCHANGED <<idx, pend, dev, nreq, left, nestleft, faults>>

Interrupt ==
    /\ At_("sub") \/ At_("after")
    /\ faults > 0 /\ faults' = faults - 1
    /\ Emit([ev |-> "interrupt", out |-> Exc("Interrupt")])
    /\ ctl' = [ctl EXCEPT ![Len(ctl)].pc = "raise", ![Len(ctl)].exc = Exc("Interrupt")]
    /\ Choose([c |-> "nest", op |-> "int", kind |-> "-"])
    /\ UNCHANGED <<idx, pend, dev, nreq, left, nestleft>>

Query ==
    /\ At_("query")
    /\ Emit([ev |-> "ret", op |-> "full", req |-> Here.req, out |-> [t |-> "i", v |-> IF Len(pend) >= Max THEN <<1>> ELSE <<>>]])
    /\ Done /\ UNCHANGED <<idx, pend, dev, nreq, left, nestleft, faults, script>>

RECURSIVE Free(_)
Free(i) == IF Probe /\ HasId(i) THEN Free((i + 1) % Max) ELSE i
Alloc ==
    /\ At_("alloc")
    /\ IF Len(pend) >= Max
       THEN /\ Emit([ev |-> "ret", op |-> Here.op, req |-> Here.req, out |-> Exc(QueueFull)])
            /\ Done /\ UNCHANGED <<idx, pend>>
       ELSE LET id == Free(idx)
            IN /\ idx' = (id + 1) % Max
               /\ pend' = Append(Drop(id), [id |-> id, req |-> Here.req,
                                            cb |-> IF Here.op = "call" THEN "call" ELSE Here.kind])
               /\ ctl' = [ctl EXCEPT ![Len(ctl)].pc = "submit", ![Len(ctl)].id = id]
               /\ Silent
    /\ UNCHANGED <<dev, nreq, left, nestleft, faults, script>>
Submit(k) ==
    /\ At_("submit")
    /\ Emit([ev |-> "submit", id |-> Here.id, req |-> Here.req, out |-> OutOf(Here.req, k)])
    /\ dev' = Append(dev, [id |-> Here.id, req |-> Here.req, out |-> OutOf(Here.req, k)])
    /\ Goto("sub")
    /\ Choose([c |-> "sub", ok |-> TRUE, out |-> k])
    /\ UNCHANGED <<idx, pend, nreq, left, nestleft, faults>>
SubmitFails ==
    /\ At_("submit") /\ faults > 0 /\ faults' = faults - 1
    /\ Emit([ev |-> "submitfail", id |-> Here.id, req |-> Here.req, out |-> Exc("OSError")])
    /\ pend' = Drop(Here.id)
    /\ ctl' = [ctl EXCEPT ![Len(ctl)].pc = "raise", ![Len(ctl)].exc = Exc("OSError")]
    /\ Choose([c |-> "sub", ok |-> FALSE, out |-> "-"])
    /\ UNCHANGED <<idx, dev, nreq, left, nestleft>>
Sent ==
    /\ At_("sent")
    /\ IF Here.op = "send"
       THEN Emit([ev |-> "ret", op |-> "send", req |-> Here.req, out |-> Nil]) /\ Done
       ELSE Goto("loop") /\ Silent
    /\ UNCHANGED <<idx, pend, dev, nreq, left, nestleft, faults, script>>
Raise ==
    /\ At_("raise")
    /\ Emit([ev |-> "ret", op |-> Here.op, req |-> Here.req, out |-> Here.exc])
    /\ Done /\ UNCHANGED <<idx, pend, dev, nreq, left, nestleft, faults, script>>

LoopEnds ==
    /\ At_("loop")
    /\ IF Here.op = "wait" THEN pend = <<>> ELSE Here.got # <<>>
    /\ Emit([ev |-> "ret", op |-> Here.op, req |-> Here.req, out |-> IF Here.op = "wait" THEN Nil ELSE Here.got[1]])
    /\ Done /\ UNCHANGED <<idx, pend, dev, nreq, left, nestleft, faults, script>>
Reading == At_("loop") /\ IF Here.op = "wait" THEN pend # <<>> ELSE Here.got = <<>>
After1 == [ctl EXCEPT ![Len(ctl)].pc = "after"]
Read(i) ==
    /\ Reading /\ i \in DOMAIN dev
    /\ LET a == dev[i]
       IN /\ dev' = SubSeq(dev, 1, i - 1) \o SubSeq(dev, i + 1, Len(dev))
          /\ Choose([c |-> "read", req |-> a.req])
          /\ Emit([ev |-> "read", id |-> a.id, out |-> a.out])
          /\ IF HasId(a.id)
             THEN LET p == ById(a.id)
                  IN /\ pend' = Drop(a.id)
                     /\ CASE p.cb = "none" -> Goto("after")
                          [] p.cb = "call" -> ctl' = [k \in DOMAIN After1 |-> IF ctl[k].op = "call" /\ ctl[k].req = p.req
                                                                           THEN [After1[k] EXCEPT !.got = <<a.out>>] ELSE After1[k]]
                          [] OTHER -> ctl' = Append(After1, [pc |-> "cb", op |-> "cb", req |-> p.req, kind |-> p.cb, id |-> -1,
                                                          exc |-> Nil, got |-> <<a.out>>])
             ELSE UNCHANGED pend /\ ctl' = [ctl EXCEPT ![Len(ctl)].pc = "raise", ![Len(ctl)].exc = Exc("AsiInternalError")]
    /\ UNCHANGED <<idx, nreq, left, nestleft, faults>>
ReadRogue ==
    /\ Reading /\ faults > 0 /\ faults' = faults - 1
    /\ Emit([ev |-> "read", id |-> Max + 7, out |-> Nil])
    /\ ctl' = [ctl EXCEPT ![Len(ctl)].pc = "raise", ![Len(ctl)].exc = Exc("AsiInternalError")]
    /\ Choose([c |-> "read", req |-> -1])
    /\ UNCHANGED <<idx, pend, dev, nreq, left, nestleft>>
ReadFails ==
    /\ Reading /\ faults > 0 /\ faults' = faults - 1
    /\ Emit([ev |-> "readfail", out |-> Exc("OSError")])
    /\ ctl' = [ctl EXCEPT ![Len(ctl)].pc = "raise", ![Len(ctl)].exc = Exc("OSError")]
    /\ Choose([c |-> "read", req |-> -2])
    /\ UNCHANGED <<idx, pend, dev, nreq, left, nestleft>>
Callback ==
    /\ At_("cb")
    /\ Emit([ev |-> "cb", req |-> Here.req, out |-> Here.got[1]])
    /\ Goto(IF Here.kind = "nest" THEN "nestcb" ELSE "cbdone")
    /\ UNCHANGED <<idx, pend, dev, nreq, left, nestleft, faults, script>>
CallbackDone ==
    /\ At_("cbdone")
    /\ IF Here.kind = "raise"
       THEN /\ Emit([ev |-> "cbret", req |-> Here.req, out |-> Exc("CallbackError")])
            /\ ctl' = [SubSeq(ctl, 1, Len(ctl) - 1) EXCEPT ![Len(ctl) - 1].pc = "raise", ![Len(ctl) - 1].exc = Exc("CallbackError")]
       ELSE Emit([ev |-> "cbret", req |-> Here.req, out |-> Nil]) /\ Done
    /\ UNCHANGED <<idx, pend, dev, nreq, left, nestleft, faults, script>>

Next ==
    \/ \E op \in {"send", "call", "wait", "full"}, k \in CbKinds : Operate(op, k) \/ (k # "nest" /\ Nest(op, k))
    \/ NoNest \/ Interrupt \/ Query \/ Alloc \/ \E k \in {"ok", "none", "err"} : Submit(k)
    \/ SubmitFails \/ Sent \/ Raise \/ LoopEnds \/ \E i \in 1..(Ops + Nested) : Read(i)
    \/ ReadRogue \/ ReadFails \/ Callback \/ CallbackDone
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

AlwaysAllowed == bad = {}
Bounded == Len(pend) <= Max
Distinct == \A i, j \in DOMAIN pend : i # j => pend[i].id # pend[j].id
\* what the executer believes is pending is what was submitted and not answered yet (between operations)
Consistent == ctl = <<>> => {[id |-> x.id, req |-> x.req] : x \in Range(pend)} = {[id |-> x.id, req |-> x.req] : x \in Range(c.q)}
DeviceAgrees == ctl = <<>> => \A x \in Range(dev) : \E y \in Range(pend) : x.id = y.id /\ x.req = y.req
Finished == ctl = <<>> /\ left = 0
NeverStuck == ENABLED Next \/ Finished
Terminates == <>Finished
Shown == (Export /\ Finished) => PrintT(<<"BEH", ToJson([max |-> Max, script |-> script])>>)
=============================================================================
