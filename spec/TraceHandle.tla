----------------------------- MODULE TraceHandle -----------------------------
EXTENDS Handle, Json, IOUtils
VARIABLES l, devs, q
vars == <<l, devs, q>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
First == atoi(IOEnv.START)
None == [i \in {} |-> 0]
Fails(e) ==
    CASE e.ev = "start" -> {}
      [] e.ev = "enter" -> EnterFails(devs, e)
      [] e.ev = "cmd" -> CmdFails(devs, e)
      [] e.ev = "exit" -> ExitFails(devs, e)
      [] e.ev = "end" -> If(DOMAIN devs = {}, "a device is left open") \cup If(e.extra = <<>>, "opened or closed besides")
      [] e.ev = "file" -> FileFails(e)
      [] e.ev = "reclose" -> ReCloseFails(e)
      [] e.ev = "poll" -> PollFails(e)
      [] e.ev = "limit" -> LimitFails(e)
      [] e.ev = "gevent" -> GeventFails(e)
      [] e.ev = "wrap" -> WrapFails(e)
      [] e.ev = "factory" -> FactoryFails(e)
      [] e.ev = "adapter" -> AdapterFails(e)
      [] e.ev = "synccall" -> SyncCallFails(e)
      [] e.ev = "queue" -> QueueFails(q, e)
Init == l = First /\ devs = None /\ q = QueueStart(1)
Next ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET e == Trace[l]
           f == Fails(e)
       IN /\ IF f = {} THEN TRUE ELSE PrintT(<<"REJECT", l, f>>)
          /\ devs' = CASE e.ev = "start" -> None [] e.ev = "enter" -> AfterEnter(devs, e) [] e.ev = "exit" -> AfterExit(devs, e) [] OTHER -> devs
          /\ q' = CASE e.ev = "start" -> QueueStart(e.max) [] e.ev = "queue" -> QueueAfter(q, e) [] OTHER -> q
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter = Len(Trace) - First + 2
===============================================================================
