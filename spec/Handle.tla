-------------------------------- MODULE Handle --------------------------------
(* What surrounds the executers: device handles and the contexts that open and close them (C27), waiting for a device to become
   readable (C28), yields to other greenlets (C29), the choice of the platform (C30), adapters (C32).  Each part is an acceptor: the set
   of clauses an observed event violates.                                                                                       *)
EXTENDS Bytes, TLC

If(b, x) == IF b THEN {} ELSE {x}
\* ---- platforms ------------------------------------------------------------------
Known == {"linux", "windows", "solaris", "aix"}
\* how an executer talks to its device: the OS calls one command makes
Way(x) == CASE x = "sg" -> <<"write", "read">> [] x = "windows" -> <<"DeviceIoControl">> [] OTHER -> <<"ioctl">>
Of(platform) == IF platform = "linux" THEN "sg" ELSE platform
\* the time limit of a command in the OS's unit: by default, or as given to the executer
Limit(x, given) == IF given >= 0 /\ x # "windows" THEN given
                   ELSE CASE x \in {"sg", "dm"} -> 30000 [] x = "windows" -> 10 [] OTHER -> 30
Capacity(x, given) == IF given > 0 THEN given ELSE IF x \in {"sg", "windows"} THEN 15 ELSE 1
(* how a device is opened.  An open of a Unix file: [path, acc (O_RDWR is 2), nonblock, other: some flag that changes the file or what
   is done to it]; of a Windows one: [path, access, share, disp, flags], the words as naturals.                                  *)
UnixOpenFails(platform, path, o) == If(o.path = path, "path") \cup If(o.acc = 2 /\ ~o.other, "opened read-write") \cup
                                    If(o.nonblock = (platform = "solaris"), "flags of the platform")
WinOpenFails(path, async, o) == If(o.path = path, "path") \cup If(o.access = <<192, 0, 0, 0>>, "opened read-write") \cup
                                If(o.share = <<3>> /\ o.disp = <<3>> /\ o.flags = (IF async THEN <<64, 0, 0, 0>> ELSE <<>>), "flags of the platform")
OpenFails(platform, path, async, os) ==
    IF Len(os) # 1 THEN {"opened once"}
    ELSE IF platform = "windows" THEN WinOpenFails(path, async, os[1]) ELSE UnixOpenFails(platform, path, os[1])

\* ============================== C27: contexts and handles =============================
(* devs: id of the context -> [fd, x] as long as it is open.  Events: enter, cmd (a command made with the context's executer),
   exit (the body ended, perhaps by an exception).                                                                         *)
Contexts == [windows |-> "windows", linux_dm |-> "dm", linux_sg |-> "sg", solaris |-> "solaris", aix |-> "aix"]
PlatformOf(cm) == CASE cm \in {"linux_dm", "linux_sg"} -> "linux" [] OTHER -> cm
EnterFails(devs, e) ==
    (IF Len(e.opens) = 1 /\ e.opens[1].fd < 0
     THEN If(e.out = "error", "a device that cannot be opened is reported")
     ELSE If(e.out = "ok", "entered") \cup If(Len(e.opens) = 1, "opened once"))
    \cup (IF Len(e.opens) = 1 THEN OpenFails(PlatformOf(e.cm), e.path, FALSE, e.opens) ELSE {})
    \cup If(e.closes = <<>>, "nothing is closed on the way in")
AfterEnter(devs, e) == IF e.out = "ok" /\ Len(e.opens) = 1
                       THEN [i \in DOMAIN devs \cup {e.id} |-> IF i = e.id THEN [fd |-> e.opens[1].fd, x |-> Contexts[e.cm]] ELSE devs[i]]
                       ELSE devs
CtxLimit(x) == IF x = "sg" THEN 3000 ELSE Limit(x, -1)
CmdFails(devs, e) ==
    IF e.id \notin DOMAIN devs THEN {"a command without a device"}
    ELSE LET d == devs[e.id]
         IN If([i \in DOMAIN e.calls |-> e.calls[i].call] = Way(d.x), "the platform's way to the device")
            \cup If(\A i \in DOMAIN e.calls : e.calls[i].fd = d.fd, "an executer for that device")
            \cup If(e.timeout = CtxLimit(d.x), "time limit")
            \cup If(e.out = (IF e.fails THEN "error" ELSE "ok"), "outcome of a command")
ExitFails(devs, e) ==
    IF e.id \notin DOMAIN devs THEN {"left without having been entered"}
    ELSE If(e.closes = <<devs[e.id].fd>>, "closed exactly once")
         \cup CASE e.raised /\ ~e.closefails -> If(e.out = "same", "the exception is let through")
                [] ~e.raised /\ ~e.closefails -> If(e.out = "ok", "left normally")
                [] e.raised /\ e.closefails -> If(e.out \in {"same", "close"}, "an exception is let through")
                [] OTHER -> If(e.out = "close", "the error of closing is reported")
AfterExit(devs, e) == [i \in DOMAIN devs \ {e.id} |-> devs[i]]
(* a method of a handle: the OS call it makes, with the same arguments, and what that gives or raises *)
FileFails(e) == If(Len(e.calls) = 1, "one call")
                \cup (IF Len(e.calls) = 1 THEN If(e.calls[1] = e.op, "the call asked for") \cup If(e.same, "its arguments") ELSE {})
                \cup If(e.out = e.want, "its result")
\* a file that has been closed, on Windows, is not closed again
ReCloseFails(e) == If(e.calls = <<>> /\ e.out.t = "z", "closed again")

\* ============================= C28: waiting to read ================================
(* times in microseconds since the call; ready: when the device becomes readable (-1: never); limit: the time configured;
   calls: <<[c, t]>> with c "select", "sleep" (ask: for how long) or "read" (size).                                      *)
Slack == 100000
Reads(e) == SelectSeq(e.calls, LAMBDA c : c.c = "read")
Waits(e) == SelectSeq(e.calls, LAMBDA c : c.c = "sleep")
\* when the device was last looked at before call i
Looked(cs, i) == LET S == {j \in 1..(i - 1) : cs[j].c = "select"} IN IF S = {} THEN cs[i].t ELSE cs[CHOOSE j \in S : \A k \in S : k <= j].t
PollFails(e) ==
    LET reads == Reads(e)
        waits == Waits(e)
        got == reads # <<>>
    IN If(\A i \in DOMAIN reads : e.ready >= 0 /\ reads[i].t >= e.ready, "read before the device is readable")
       \cup If(Len(reads) <= 1 /\ \A i \in DOMAIN reads : reads[i].ask = e.size, "one read of the size asked for")
       \cup If(\A i \in DOMAIN e.calls : e.calls[i].c = "sleep" /\ e.ready >= 0 => Looked(e.calls, i) < e.ready, "waits though the device is readable")
       \cup If(Cardinality({i \in DOMAIN waits : waits[i].t > e.limit + Slack}) <= 1, "waits forever")     \* one: the time may pass just before
       \cup If(\A i \in DOMAIN waits : waits[i].ask <= Slack, "waits too long at a time")
       \cup (IF got THEN If(e.out = e.want, "what was read")
             ELSE If(RaisedA(e.out, "OSError"), "a silent device is reported")
                  \cup If(e.end >= e.limit, "gives up too early")
                  \cup If(e.ready < 0 \/ e.ready > e.limit, "gives up though the device became readable in time"))
\* the time limit of a command
LimitFails(e) == If(e.sent = Limit(e.x, e.given), "time limit")

\* =============================== C29: other greenlets ================================
(* calls: what an executer did, in order: a device call [c, ok] or a yield ("yield", with its argument)              *)
IsCall(c) == c.c \in {"write", "read", "ioctl", "DeviceIoControl"}
Yields(calls, i) ==                                         \* yields after call i, before the next one
    LET later == {j \in (i + 1)..Len(calls) : IsCall(calls[j])}
        to == IF later = {} THEN Len(calls) ELSE (CHOOSE j \in later : \A k \in later : j <= k) - 1
    IN Cardinality({j \in (i + 1)..to : calls[j].c = "yield"})
\* the device calls of n requests that are all sent before the first answer is waited for
Burst(x, n) == IF x = "sg" THEN [i \in 1..(2 * n) |-> IF i <= n THEN "write" ELSE "read"] ELSE [i \in 1..n |-> Way(x)[1]]
GeventFails(e) ==
    LET cs == e.calls
        dev == SelectSeq(cs, IsCall)
    IN If(e.gevent \/ \A i \in DOMAIN cs : cs[i].c # "yield", "yields without gevent")
       \cup (IF e.gevent THEN If(\A i \in DOMAIN cs : IsCall(cs[i]) /\ cs[i].ok => Yields(cs, i) = 1, "one yield after a call")
                              \cup If(\A i \in DOMAIN cs : IsCall(cs[i]) /\ ~cs[i].ok => Yields(cs, i) <= 1, "a yield after a failed call")
                              \cup If(\A i \in DOMAIN cs : cs[i].c = "yield" => \E j \in 1..(i - 1) : IsCall(cs[j]), "a yield before a call")
                              \cup If(\A i \in DOMAIN cs : cs[i].c = "yield" => cs[i].ok, "a yield that waits")
             ELSE {})
       \cup If([i \in DOMAIN dev |-> dev[i].c] = SubSeq(Burst(e.x, e.n), 1, Len(dev)) /\ (e.n > 1 => Len(dev) = Len(Burst(e.x, e.n))), "device calls")
       \cup If(\A i \in DOMAIN dev : ~dev[i].ok => i = Len(dev), "goes on after a failure")
       \cup If(e.out = e.want, "outcome")
\* a function made friendly
\* asked: how often it was called: also by another greenlet while the first one yields, also from inside itself
WrapFails(e) == If(e.ran = e.asked /\ e.args, "called once, with its arguments") \cup If(e.same, "result or exception passed through")
                \cup If(e.name, "known by its name")
                \cup If(IF ~e.gevent THEN e.yields = 0 ELSE IF e.raised THEN e.yields \in 0..e.asked ELSE e.yields = e.asked, "one yield")

\* ================================= C30: platforms =====================================
UnknownFails(e) == If(e.out = "error" /\ e.named, "an error that names the platform") \cup If(e.opens = <<>>, "nothing is opened")
Unusual(e) == e.platform \notin Known \/ (e.platform # "windows" /\ e.factory \in {"async_file", "reactor"})
FactoryFails(e) ==
    IF Unusual(e) THEN UnknownFails(e)
    ELSE IF e.factory = "executer"
         THEN If(e.out = "ok", "made") \cup
              (IF e.out = "ok" THEN If(e.way = Way(Of(e.platform)), "the platform's executer") \cup If(e.device, "with the device given")
                                    \cup If(e.capacity = Capacity(Of(e.platform), e.queue), "queue size") \cup If(e.sent = Limit(Of(e.platform), e.given), "time limit")
               ELSE {})
         ELSE IF e.factory \in {"file", "async_file"}
         THEN (IF e.refused THEN If(e.out = "error", "a device that cannot be opened is reported") ELSE If(e.out = "ok", "made"))
              \cup OpenFails(e.platform, e.path, e.factory = "async_file", e.opens)
              \cup If(e.handle, "the platform's handle")
         ELSE If(e.out = "ok" /\ e.handle, "the platform's reactor")

\* ================================== C32: adapters =====================================
(* e.m: what was called on the adapter; calls: what the wrapped executer saw; wrapped: how often the call wrapper was used *)
AdapterFails(e) ==
    If(Len(e.calls) = 1, "forwarded exactly once")
    \cup (IF Len(e.calls) = 1 THEN If(e.calls[1] = e.m, "to the same method") \cup If(e.args, "with its arguments") ELSE {})
    \cup If(e.same, "what it gives is passed on")
    \cup If(e.m = "is_queue_full" \/ e.wrapped = 1, "through the wrapper")
SyncCallFails(e) == If(e.started = 1 /\ e.args, "called once, with its arguments") \cup If(e.ran = 1, "runs exactly once") \cup If(e.out = e.want, "its result")
\* a real executer in an adapter that makes calls synchronous: a queue of requests, answered when waited for
QueueStart(max) == [max |-> max, pend |-> {}, n |-> 0]
QueueFails(q, e) ==
    CASE e.op = "full" -> If(e.out = (Cardinality(q.pend) >= q.max), "queue full")
      [] e.op = "send" -> IF Cardinality(q.pend) >= q.max THEN If(e.res = "AsiRequestQueueFullError" /\ e.delivered = <<>>, "a full queue is reported")
                          ELSE If(e.res = "None", "sent") \cup If(e.submitted = <<e.req>>, "submitted once") \cup If(e.delivered = <<>>, "answered before waiting")
      [] e.op = "call" -> IF Cardinality(q.pend) >= q.max THEN If(e.res = "AsiRequestQueueFullError", "a full queue is reported")
                          ELSE If(e.res = "data", "result of a call") \cup If(e.submitted = <<e.req>>, "submitted once")
                               \cup If(Range(e.delivered) \subseteq q.pend /\ Cardinality(Range(e.delivered)) = Len(e.delivered), "callbacks")
      [] e.op = "wait" -> If(Range(e.delivered) = q.pend /\ Len(e.delivered) = Cardinality(q.pend), "every callback once") \cup If(e.submitted = <<>>, "nothing is sent")
QueueAfter(q, e) ==
    CASE e.op = "send" -> IF Cardinality(q.pend) >= q.max THEN q ELSE [q EXCEPT !.pend = @ \cup {e.req}]
      [] e.op \in {"call", "wait"} -> [q EXCEPT !.pend = @ \ Range(e.delivered)]
      [] OTHER -> q
===============================================================================
