------------------------------ MODULE Executer ------------------------------
(* The command executer: a bounded queue of requests in front of a device that
   answers them in any order.

   The state is one record; Bad(s, e) is the set of reasons why event e may NOT
   happen in state s, After(s, e) the state after it.  An execution is allowed
   iff Bad is empty at each of its events.  Events:

     op    op (send/call/wait/full), req, cb       an operation begins
     submit      id, req [, out]                   the OS accepts a request under packet id
     submitfail  id, req, out                      the OS refuses it, raising out
     hand        id, req                           the OS takes the request; whether it accepts it turns out later
     switch      th                                another coroutine runs on, while that request is on its way
     read        id, out                           the device's answer to packet id is read
     readfail    out                               reading raises out
     cb          req, out                          the callback of req runs with out
     cbret       out                               ... and returns (Nil) or raises out
     interrupt   out                               while other greenlets run, out is raised in this one (gevent.Timeout)
     ret   op, req, out                            the operation returns or raises out
                                                   (cb and ret: obj is the error object's number, 0 if there is none)

   cb is "bad" for a request that cannot be marshalled: it must be refused.
   Operations nest: a callback may start operations, and so may another greenlet
   that is scheduled when an operation has just submitted its request or has
   just delivered an answer.  An interrupted request was handed to the device, so it
   stays pending until it is answered (sync: it and its answer are forgotten).

   sync: the OS answers at submission (an ioctl), so there are no read events; an
   answer is available from the submission on and is delivered by a later wait or
   call, in any order.  When a request without callback is completed is then not
   visible: it is "maybe" pending once something was delivered.                  *)
EXTENDS Bytes

Start(max, sync) ==
    [max |-> max, sync |-> sync, q |-> <<>>, due |-> <<>>, stack |-> <<>>, exc |-> <<>>, th |-> 0, parked |-> <<>>, seen |-> {}]

Top(s) == s.stack[Len(s.stack)]
Busy(s) == s.stack # <<>>
TopIs(s, ops) == Busy(s) /\ Top(s).op \in ops
Pop(s) == [s EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1)]
SetTop(s, f) == [s EXCEPT !.stack[Len(s.stack)] = f]
Without(q, P(_)) == SelectSeq(q, LAMBDA x : ~P(x))
Sure(s) == Len(SelectSeq(s.q, LAMBDA x : ~x.maybe))
MustBeFull(s) == Sure(s) >= s.max
MayBeFull(s) == Len(s.q) >= s.max
InUse(s, id) == \E i \in DOMAIN s.q : s.q[i].id = id /\ ~s.q[i].maybe
Of(s, id) == s.q[CHOOSE i \in DOMAIN s.q : s.q[i].id = id]
HasReq(s, r) == \E i \in DOMAIN s.q : s.q[i].req = r
OfReq(s, r) == s.q[CHOOSE i \in DOMAIN s.q : s.q[i].req = r]

\* what was announced and what was seen are the same outcome
Same(want, got) ==
    CASE want.t = "b" -> IsBytes(got, want.v)
      [] want.t = "z" -> IsNone(got)
      [] want.t = "x" -> RaisedA(got, want.v[1])
      [] OTHER -> FALSE

If(c, name) == IF c THEN {} ELSE {name}

\* ---- operations -----------------------------------------------------------
MayBegin(s) ==
    /\ s.due = <<>> /\ s.exc = <<>>
    /\ IF Busy(s) THEN \/ Top(s).op = "cb"
                       \/ Top(s).op \in {"send", "call"} /\ Top(s).st \in {"sub", "got"}
                       \/ Top(s).op = "wait"
       ELSE TRUE
OpBad(s, e) == If(MayBegin(s), "operation begins in the middle of another")
OpAfter(s, e) == [s EXCEPT !.stack = Append(@, [op |-> e.op, req |-> e.req, cb |-> e.cb, st |-> "new", out |-> Nil])]

SubmitsNow(s, e) ==
    If(TopIs(s, {"send", "call"}) /\ s.due = <<>> /\ s.exc = <<>>, "request handed to the device out of the blue")
    \cup (IF TopIs(s, {"send", "call"}) THEN
              If(Top(s).st = "new", "request handed to the device twice")
              \cup If(Top(s).cb # "bad", "malformed request handed to the device")
              \cup If(Top(s).req = e.req, "another request handed to the device")
          ELSE {})
    \cup If(~MustBeFull(s), "request handed to the device although the queue is full")
    \cup If(~InUse(s, e.id), "packet id of a pending request used again")
\* a request that is on its way takes its place in the queue, and nothing can be delivered for it
OnItsWay(s) == TopIs(s, {"send", "call"}) /\ Top(s).st = "hand"
Arrives(s, e) == If(Top(s).req = e.req, "the operating system decides on another request than the one of this coroutine")
NotOf(q, r) == Without(q, LAMBDA x : x.req = r)
HandBad(s, e) == SubmitsNow(s, e) \cup If(s.sync, "request on its way")
HandAfter(s, e) ==
    [SetTop(s, [Top(s) EXCEPT !.st = "hand"]) EXCEPT
        !.q = Append(@, [id |-> e.id, req |-> e.req, cb |-> "hand", out |-> Nil, maybe |-> FALSE])]
SubmitBad(s, e) == IF OnItsWay(s) THEN Arrives(s, e) ELSE SubmitsNow(s, e)
SubmitAfter(s, e) ==
    LET f == Top(s)
        entry == [id |-> e.id, req |-> e.req, cb |-> IF f.op = "call" THEN "call" ELSE f.cb,
                  out |-> IF s.sync THEN e.out ELSE Nil, maybe |-> FALSE]
        keep == Without(NotOf(s.q, e.req), LAMBDA x : x.maybe /\ x.id = e.id /\ x.cb # "cb")
    IN [SetTop(s, [f EXCEPT !.st = "sub", !.out = entry.out]) EXCEPT !.q = Append(keep, entry)]
SubmitFailBad(s, e) == IF OnItsWay(s) THEN Arrives(s, e) ELSE SubmitsNow(s, e)
SubmitFailAfter(s, e) == [SetTop(s, [Top(s) EXCEPT !.st = "failed"]) EXCEPT !.exc = <<e.out>>, !.q = NotOf(@, e.req)]

\* another coroutine goes on only when this one has nothing to do, or waits for the operating system's decision
Park(s) == [n \in DOMAIN s.parked \cup {s.th} |-> IF n = s.th THEN s.stack ELSE s.parked[n]]
SwitchBad(s, e) ==
    If(s.due = <<>> /\ s.exc = <<>> /\ (Busy(s) => OnItsWay(s) /\ Len(s.stack) = 1), "another coroutine runs in the middle of an operation")
SwitchAfter(s, e) ==
    [s EXCEPT !.th = e.th, !.parked = Park(s), !.stack = IF e.th \in DOMAIN Park(s) THEN Park(s)[e.th] ELSE <<>>]

\* ---- the device answers ----------------------------------------------------
Reads(s) ==
    If(~s.sync /\ s.due = <<>> /\ s.exc = <<>> /\ TopIs(s, {"call", "wait"}), "device read out of the blue")
    \cup (IF TopIs(s, {"call"}) THEN If(Top(s).st = "sub", "device read although the call has its answer") ELSE {})
    \cup If(s.q # <<>>, "device read although nothing is pending")
ReadBad(s, e) == Reads(s)
ReadAfter(s, e) ==
    IF ~InUse(s, e.id) THEN [s EXCEPT !.exc = <<[t |-> "x", v |-> <<"AsiInternalError">>]>>]
    ELSE LET x == Of(s, e.id)
             t == [s EXCEPT !.q = Without(@, LAMBDA y : y.id = e.id)]
         IN CASE x.cb = "none" -> t
              [] x.cb = "call" ->
                    [t EXCEPT !.stack = [i \in DOMAIN @ |->
                        IF @[i].op = "call" /\ @[i].req = x.req THEN [@[i] EXCEPT !.st = "got", !.out = e.out] ELSE @[i]]]
              [] OTHER -> [t EXCEPT !.due = <<[req |-> x.req, out |-> e.out]>>]
ReadFailBad(s, e) == Reads(s)
ReadFailAfter(s, e) == [s EXCEPT !.exc = <<e.out>>]

\* ---- this greenlet is interrupted while others run --------------------------
InterruptBad(s, e) ==
    If(Busy(s) /\ s.exc = <<>>, "other greenlets run in the middle of something")
    \cup If(s.due = <<>>, "other greenlets run before an answer that was read is delivered: an interruption loses it")
InterruptAfter(s, e) ==
    LET t == [s EXCEPT !.exc = <<e.out>>]
    IN IF ~TopIs(s, {"send", "call"}) THEN t
       ELSE IF Top(s).st = "new" THEN SetTop(t, [Top(s) EXCEPT !.st = "failed"])
       ELSE IF s.sync /\ Top(s).st = "sub" THEN [t EXCEPT !.q = Without(@, LAMBDA x : x.req = Top(s).req)]
       ELSE t

\* ---- callbacks --------------------------------------------------------------
\* something was processed: requests whose completion is invisible may have completed
Blur(s) == IF s.sync THEN [s EXCEPT !.q = [i \in DOMAIN @ |-> IF @[i].cb \in {"cb", "hand"} THEN @[i] ELSE [@[i] EXCEPT !.maybe = TRUE]]]
           ELSE s
\* each failure has an error of its own: what is kept, compared or changed of one is not another's
Obj(e) == IF "obj" \in DOMAIN e THEN e.obj ELSE 0
Reports(s, e) == If(Obj(e) \notin s.seen, "two failures are reported with one error object")
Saw(s, e) == IF Obj(e) = 0 THEN s ELSE [s EXCEPT !.seen = @ \cup {Obj(e)}]
CbBad(s, e) == Reports(s, e) \cup
    IF s.sync THEN
        If(TopIs(s, {"call", "wait"}) /\ s.exc = <<>>, "callback out of the blue")
        \cup (IF HasReq(s, e.req) THEN If(OfReq(s, e.req).cb = "cb" /\ Same(OfReq(s, e.req).out, e.out),
                                          "callback with another outcome than the device's answer")
              ELSE {"callback of a request that is not pending"})
    ELSE IF s.due = <<>> THEN {"callback without an answer to it"}
    ELSE If(s.due[1].req = e.req, "callback of another request than the one answered")
         \cup If(Same(s.due[1].out, e.out), "callback with another outcome than the device's answer")
CbAfter(r, e) ==
    LET s == Saw(r, e)
        t == IF s.sync THEN Blur([s EXCEPT !.q = Without(@, LAMBDA x : x.req = e.req)]) ELSE [s EXCEPT !.due = <<>>]
    IN [t EXCEPT !.stack = Append(@, [op |-> "cb", req |-> e.req, cb |-> "none", st |-> "new", out |-> Nil])]
CbRetBad(s, e) == If(TopIs(s, {"cb"}) /\ s.due = <<>> /\ s.exc = <<>>, "callback returns in the middle of something")
CbRetAfter(s, e) == LET t == Pop(s) IN IF IsNone(e.out) THEN t ELSE [t EXCEPT !.exc = <<e.out>>]

\* ---- operations end ----------------------------------------------------------
QueueFull == "AsiRequestQueueFullError"
RetBad(s, e) ==
    If(TopIs(s, {e.op}) /\ s.due = <<>>, "operation ends although an answer was not delivered")
    \cup IF ~TopIs(s, {e.op}) THEN {}
         ELSE IF s.exc # <<>> THEN If(Same(s.exc[1], e.out), "failure not reported to the caller")
         ELSE Reports(s, e) \cup CASE e.op = "full" ->
                     If(e.out.t = "i" /\ e.out.v \in {<<>>, <<1>>}, "queue test gives no answer")
                     \cup If((e.out.t = "i" /\ e.out.v = <<1>>) => MayBeFull(s), "queue reported full although it is not")
                     \cup If((e.out.t = "i" /\ e.out.v = <<>>) => ~MustBeFull(s), "queue not reported full although it is")
                [] e.op = "wait" ->
                     If(~Raised(e.out), "wait fails although nothing failed")
                     \cup If(\A i \in DOMAIN s.q : IF s.sync THEN s.q[i].cb # "cb" ELSE FALSE,
                             "wait returns although a request is pending")
                [] Top(s).cb = "bad" -> If(Raised(e.out), "malformed request accepted")
                [] Top(s).st = "new" ->
                     If(RaisedA(e.out, QueueFull), "request not handed to the device")
                     \cup If(MayBeFull(s), "request refused although the queue is not full")
                [] Top(s).st = "hand" -> {"operation ends while its request is on its way"}
                [] e.op = "send" -> If(~Raised(e.out), "send fails although nothing failed")
                [] e.op = "call" /\ s.sync ->
                     If(Same(Top(s).out, e.out), "call gives another outcome than the device's answer")
                [] OTHER -> If(Top(s).st = "got", "call returns without an answer")
                            \cup If(Same(Top(s).out, e.out), "call gives another outcome than the device's answer")
RetAfter(r, e) ==
    LET s == IF r.exc = <<>> THEN Saw(r, e) ELSE r
        t == [Pop(s) EXCEPT !.exc = <<>>]
        calls == {s.stack[i].req : i \in {j \in DOMAIN s.stack : s.stack[j].op = "call" /\ j < Len(s.stack)}}
    IN IF s.exc # <<>> THEN (IF e.op = "full" THEN t ELSE Blur(t))
       ELSE CASE e.op = "wait" -> [t EXCEPT !.q = Without(@, LAMBDA x : x.cb # "hand" /\ x.req \notin calls)]
              [] e.op = "call" /\ s.sync /\ Top(s).st = "sub" -> Blur([t EXCEPT !.q = Without(@, LAMBDA x : x.req = e.req)])
              [] OTHER -> t

\* -------------------------------------------------------------------------------
Bad(s, e) ==
    CASE e.ev = "op" -> OpBad(s, e)
      [] e.ev = "submit" -> SubmitBad(s, e)
      [] e.ev = "submitfail" -> SubmitFailBad(s, e)
      [] e.ev = "hand" -> HandBad(s, e)
      [] e.ev = "switch" -> SwitchBad(s, e)
      [] e.ev = "read" -> ReadBad(s, e)
      [] e.ev = "readfail" -> ReadFailBad(s, e)
      [] e.ev = "interrupt" -> InterruptBad(s, e)
      [] e.ev = "cb" -> CbBad(s, e)
      [] e.ev = "cbret" -> CbRetBad(s, e)
      [] e.ev = "ret" -> RetBad(s, e)
      [] e.ev = "end" -> If(~Busy(s) /\ s.due = <<>> /\ \A n \in DOMAIN s.parked : s.parked[n] = <<>> \/ n = s.th, "ends in the middle of an operation")
                         \cup If(s.q = <<>>, "requests left pending")
      [] OTHER -> {e.ev}
After(s, e) ==
    CASE e.ev = "op" -> OpAfter(s, e)
      [] e.ev = "submit" -> SubmitAfter(s, e)
      [] e.ev = "submitfail" -> SubmitFailAfter(s, e)
      [] e.ev = "hand" -> HandAfter(s, e)
      [] e.ev = "switch" -> SwitchAfter(s, e)
      [] e.ev = "read" -> ReadAfter(s, e)
      [] e.ev = "readfail" -> ReadFailAfter(s, e)
      [] e.ev = "interrupt" -> InterruptAfter(s, e)
      [] e.ev = "cb" -> CbAfter(s, e)
      [] e.ev = "cbret" -> CbRetAfter(s, e)
      [] e.ev = "ret" -> RetAfter(s, e)
      [] OTHER -> s
=============================================================================
