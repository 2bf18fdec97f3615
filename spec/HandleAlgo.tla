------------------------------ MODULE HandleAlgo ------------------------------
(* Designs of what module Handle demands, checked against its acceptors, and the source of schedules for the code:
   poll: UnixFile.read, with a scheduler that lets any sleep last longer and takes time between any two steps;
   contexts: contexts nested in each other, on devices that can fail to open, to work, or to close;
   queue: a real executer behind a synchronous adapter.                                                                    *)
EXTENDS Handle, Json
CONSTANTS Part, Export,
          Limits, Readies, Overs, Lags,     \* poll (ticks of 5 ms; ready 99: never)
          Depth, Nest, Max                  \* contexts; queue
VARIABLES pc, now, want, calls, devs, q, log
vars == <<pc, now, want, calls, devs, q, log>>
Tick == 5000
\* ---- poll ---------------------------------------------------------------------------------
Ask == 10000
Call(c, n) == [c |-> c, t |-> now, ask |-> n]
Ready == want.ready # 99 /\ want.ready * Tick <= now
Bytes3 == [t |-> "b", v |-> <<1, 2, 3>>]
Timeout == [t |-> "x", v |-> <<"OSError", "Exception", "BaseException">>]
Ended(out) == PollFails([ready |-> IF want.ready = 99 THEN -1 ELSE want.ready * Tick, limit |-> want.limit * Tick, size |-> 3, want |-> Bytes3,
                         calls |-> calls', out |-> out, end |-> now])
PollInit == pc = "look" /\ now = 0 /\ calls = <<>> /\ want \in [limit : Limits, ready : Readies, late : {FALSE}] /\ log = <<>>
PollNext ==
    \/ /\ pc = "look"
       /\ IF Ready THEN /\ calls' = calls \o <<Call("select", 0), Call("read", 3)>> /\ pc' = "done" /\ now' = now /\ log' = log
                        /\ Assert(Ended(Bytes3) = {}, <<"poll", want, calls', Ended(Bytes3)>>)
          ELSE \E lag \in Lags : /\ calls' = Append(calls, Call("select", 0)) /\ now' = now + lag * Tick /\ log' = Append(log, lag)
                                 /\ pc' = IF want.late THEN "give up" ELSE "sleep"
       /\ UNCHANGED want
    \/ /\ pc = "give up" /\ pc' = "done" /\ UNCHANGED <<now, calls, want, log>>
       /\ Assert(Ended(Timeout) = {}, <<"poll", want, calls, Ended(Timeout)>>)
    \/ /\ pc = "sleep" /\ pc' = "clock"
       /\ \E over \in Overs : /\ calls' = Append(calls, Call("sleep", Ask)) /\ now' = now + Ask + over * Tick /\ log' = Append(log, over)
       /\ UNCHANGED want
    \/ /\ pc = "clock" /\ pc' = "look" /\ want' = [want EXCEPT !.late = now > want.limit * Tick]
       /\ \E lag \in Lags : now' = now + lag * Tick /\ log' = Append(log, lag)
       /\ UNCHANGED calls
\* ---- contexts -------------------------------------------------------------------------------
\* pc: a stack of open contexts, innermost last; now: is an exception on its way?
Cms == DOMAIN Contexts
Flags(p) == IF p = "windows" THEN [path |-> "p", access |-> <<192, 0, 0, 0>>, share |-> <<3>>, disp |-> <<3>>, flags |-> <<>>]
            ELSE [path |-> "p", acc |-> 2, other |-> FALSE, nonblock |-> p = "solaris"]
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Enter(cm, fd) == [ev |-> "enter", id |-> Len(log) + 1, cm |-> cm, path |-> "p", opens |-> <<With(Flags(PlatformOf(cm)), "fd", fd)>>, closes |-> <<>>,
                  out |-> IF fd < 0 THEN "error" ELSE "ok"]
Cmd(i, fails) == [ev |-> "cmd", id |-> i, calls |-> [k \in DOMAIN Way(devs[i].x) |-> [call |-> Way(devs[i].x)[k], fd |-> devs[i].fd]],
                  timeout |-> CtxLimit(devs[i].x), fails |-> fails, out |-> IF fails THEN "error" ELSE "ok"]
Exit(i, closefails) == [ev |-> "exit", id |-> i, closes |-> <<devs[i].fd>>, raised |-> now, closefails |-> closefails,
                        out |-> IF closefails THEN "close" ELSE IF now THEN "same" ELSE "ok"]
CtxInit == pc = <<>> /\ now = FALSE /\ devs = [i \in {} |-> 0] /\ log = <<>> /\ calls = 0
Top == pc[Len(pc)]
Pop == SubSeq(pc, 1, Len(pc) - 1)
CtxNext ==
    \/ /\ Len(pc) < Nest /\ ~now /\ Len(log) < Depth
       /\ \E cm \in Cms, fails \in BOOLEAN :
            LET e == Enter(cm, IF fails THEN -1 ELSE Len(log) + 1)
            IN /\ Assert(EnterFails(devs, e) = {}, <<"enter", EnterFails(devs, e)>>)
               /\ devs' = AfterEnter(devs, e) /\ pc' = IF fails THEN pc ELSE Append(pc, e.id)
               /\ now' = fails /\ log' = Append(log, [c |-> "enter", id |-> e.id, cm |-> cm, fails |-> fails]) /\ calls' = calls + (IF fails THEN 0 ELSE 1)
    \/ /\ pc # <<>> /\ ~now /\ Len(log) < Depth
       /\ \E i \in Range(pc), fails \in BOOLEAN, lets \in BOOLEAN :        \* lets: the body lets the error through
            /\ lets => fails
            /\ Assert(CmdFails(devs, Cmd(i, fails)) = {}, <<"cmd", CmdFails(devs, Cmd(i, fails))>>)
            /\ log' = Append(log, [c |-> "cmd", id |-> i, fails |-> fails, lets |-> lets])
            /\ now' = lets /\ UNCHANGED <<pc, devs, calls>>
    \/ /\ pc # <<>> /\ ~now /\ Len(log) < Depth /\ now' = TRUE /\ log' = Append(log, [c |-> "raise"]) /\ UNCHANGED <<pc, devs, calls>>
    \/ /\ now /\ now' = FALSE /\ log' = Append(log, [c |-> "catch"]) /\ UNCHANGED <<pc, devs, calls>>        \* between two contexts, or at the end
    \/ /\ pc # <<>>
       /\ \E cf \in BOOLEAN :
            /\ Assert(ExitFails(devs, Exit(Top, cf)) = {}, <<"exit", ExitFails(devs, Exit(Top, cf))>>)
            /\ devs' = AfterExit(devs, Exit(Top, cf)) /\ pc' = Pop /\ now' = (now \/ cf)
            /\ log' = Append(log, [c |-> "exit", id |-> Top, fails |-> cf]) /\ calls' = calls - 1
\* what is open is what has been entered and not left
Balanced == Part = "contexts" => DOMAIN devs = Range(pc) /\ Cardinality(Range(pc)) = calls /\ \A i, j \in DOMAIN devs : devs[i].fd = devs[j].fd => i = j
\* ---- queue ------------------------------------------------------------------------------------
RECURSIVE SetToSeqOf(_)
SetToSeqOf(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE i \in S : TRUE IN <<m>> \o SetToSeqOf(S \ {m})
QInit == q = QueueStart(Max) /\ log = <<>>
QNext == /\ Len(log) < Depth
         /\ \E op \in {"send", "call", "wait", "full"} :
              LET fullq == Cardinality(q.pend) >= q.max
                  req == Len(log) + 1
                  all == SetToSeqOf(q.pend)
                  e == CASE op = "full" -> [op |-> op, out |-> fullq]
                         [] op = "send" -> [op |-> op, req |-> req, res |-> IF fullq THEN "AsiRequestQueueFullError" ELSE "None",
                                            submitted |-> IF fullq THEN <<>> ELSE <<req>>, delivered |-> <<>>]
                         [] op = "call" -> [op |-> op, req |-> req, res |-> IF fullq THEN "AsiRequestQueueFullError" ELSE "data",
                                            submitted |-> IF fullq THEN <<>> ELSE <<req>>, delivered |-> IF fullq THEN <<>> ELSE all]
                         [] OTHER -> [op |-> op, submitted |-> <<>>, delivered |-> all]
              IN Assert(QueueFails(q, e) = {}, <<"queue", q, e, QueueFails(q, e)>>) /\ q' = QueueAfter(q, e) /\ log' = Append(log, op)

Rest == <<pc, now, want, calls, devs, q>>
Init == CASE Part = "poll" -> PollInit /\ devs = 0 /\ q = 0
          [] Part = "contexts" -> CtxInit /\ want = 0 /\ q = 0
          [] Part = "queue" -> QInit /\ pc = 0 /\ now = 0 /\ want = 0 /\ calls = 0 /\ devs = 0
Next == CASE Part = "poll" -> PollNext /\ UNCHANGED <<devs, q>>
          [] Part = "contexts" -> CtxNext /\ UNCHANGED <<want, q>>
          [] Part = "queue" -> QNext /\ UNCHANGED <<pc, now, want, calls, devs>>
Spec == Init /\ [][Next]_vars
PollEnds == Part = "poll" => now <= (5 * 5000) * 100                     \* with the constants used here nothing takes longer
Done == CASE Part = "poll" -> pc = "done" [] Part = "contexts" -> Len(log) >= Depth /\ pc = <<>> /\ ~now [] OTHER -> Len(log) = Depth
Shown == Export /\ Done => PrintT(<<"BEH", ToJson([want |-> want, log |-> log])>>)
===============================================================================
