---------------------------- MODULE CoroutineAlgo ----------------------------
(* Coroutines as they are implemented: each is a stack of suspended generators; a
   trampoline sends the last value (or throws the last exception) into the innermost
   one and looks at what it yields.  A reactor runs several of them, each until it
   yields an I/O token, and then waits for any of the tokens.

   A suspended generator is its continuation: statements still to be done, and markers
   where a try, a handler or a finally ends.                                          *)
EXTENDS Coroutine, Json, IOUtils, TLC
CONSTANTS Export
Cases == ndJsonDeserialize(IOEnv.PROGRAMS)
VARIABLES s, co, case, over, order, bad
vars == <<s, co, case, over, order, bad>>
view == <<s, co, case, over, bad>>

Mark(k, x) == [k |-> k, x |-> x]
Wrap(b) == [i \in DOMAIN b |-> Mark("s", b[i])]
\* runs a generator to its next yield; act: "yield" (what: the statement), "done", "raised" (what: the exception)
A(log, act, what, k, last) == [log |-> log, act |-> act, what |-> what, k |-> k, last |-> last]
RECURSIVE Adv(_, _, _, _, _), HandledIn(_)
HandledIn(k) == IF Head(k).k = "handler" THEN Head(k).x.exc ELSE HandledIn(Tail(k))
Adv(k, last, mode, exc, log) ==
    IF k = <<>> THEN (IF mode = "exc" THEN A(log, "raised", exc, <<>>, last) ELSE A(log, "done", NoExc, <<>>, last))
    ELSE LET h == Head(k).x
             r == Tail(k)
             Finally(f) == Adv(Wrap(f) \o <<Mark("finally", [mode |-> mode, exc |-> exc])>> \o r, last, "run", NoExc, log)
         IN CASE Head(k).k = "try" ->
                    IF mode = "exc" /\ Catches(h.c, exc)
                    THEN Adv(Wrap(h.h) \o <<Mark("handler", [exc |-> exc, f |-> h.f])>> \o r, last, "run", NoExc, Append(log, Caught(h.n, exc)))
                    ELSE Finally(h.f)
              [] Head(k).k = "handler" -> Finally(h.f)
              [] Head(k).k = "finally" -> IF mode = "run" THEN Adv(r, last, h.mode, h.exc, log) ELSE Adv(r, last, mode, exc, log)
              [] mode # "run" -> Adv(r, last, mode, exc, log)
              [] h.k = "eff" -> Adv(r, last, "run", NoExc, Append(log, Eff(h.n)))
              [] h.k = "raise" -> Adv(r, last, "exc", [n |-> h.n, cls |-> h.cls], log)
              [] h.k = "reraise" -> Adv(r, last, "exc", HandledIn(r), log)
              [] h.k = "ret" -> Adv(r, last, "ret", NoExc, log)
              [] h.k = "try" -> Adv(Wrap(h.b) \o <<Mark("try", h)>> \o r, last, "run", NoExc, log)
              [] OTHER -> A(log, "yield", h, r, last)

\* a coroutine: the stack of generators, what goes into the innermost next, the token it waits for
Frame(k, n) == [k |-> k, n |-> n, last |-> Nil]
Fresh(b) == [stack |-> <<Frame(Wrap(b), 0)>>, val |-> Nil, exc |-> NoExc, tok |-> <<>>, req |-> 0, over |-> "no", res |-> Nil]
Top(c) == c.stack[Len(c.stack)]
\* what the innermost generator does when it is resumed
Resume(c) == IF c.exc # NoExc THEN Adv(Top(c).k, Nil, "exc", c.exc, <<>>)
             ELSE IF Top(c).n = 0 THEN Adv(Top(c).k, Nil, "run", NoExc, <<>>)
             ELSE Adv(Top(c).k, c.val, "run", NoExc, IF Top(c).n > 0 THEN <<Got(Top(c).n, c.val)>> ELSE <<>>)
Body(t) == IF t.k = "sub" \/ t.d <= 1 THEN t.b ELSE <<[k |-> "chain", n |-> -1, d |-> t.d - 1, b |-> t.b]>>
\* one step of the trampoline: the coroutine after it
Stepped(c, a) ==
    LET up == SubSeq(c.stack, 1, Len(c.stack) - 1)
        kept == [c EXCEPT !.stack[Len(c.stack)] = [k |-> a.k, n |-> a.what.n, last |-> a.last], !.val = Nil, !.exc = NoExc]
    IN CASE a.act = "yield" ->
            CASE a.what.k = "val" -> [kept EXCEPT !.val = ValOf(a.what)]
              [] a.what.k = "tok" -> [kept EXCEPT !.tok = <<a.what>>]
              [] OTHER -> [kept EXCEPT !.stack = Append(@, Frame(Wrap(Body(a.what)), 0))]
         [] a.act = "done" -> [c EXCEPT !.stack = up, !.val = a.last, !.exc = NoExc, !.res = a.last, !.over = IF up = <<>> THEN "done" ELSE "no"]
         [] OTHER -> [c EXCEPT !.stack = up, !.val = Nil, !.exc = a.what, !.over = IF up = <<>> THEN "failed" ELSE "no"]
\* the token's outcome is the next input
Completed(c) == LET t == c.tok[1]
                IN [c EXCEPT !.tok = <<>>, !.req = t.n, !.val = IF t.ok THEN ValOf(t) ELSE Nil, !.exc = IF t.ok THEN NoExc ELSE [n |-> t.n, cls |-> "E"]]

RECURSIVE Feed(_, _, _)
Feed(st, es, b) == IF es = <<>> THEN <<st, b>> ELSE Feed(After(st, Head(es)), Tail(es), b \cup Bad(st, Head(es)))
Emit(es) == LET r == Feed(s, es, bad) IN s' = r[1] /\ bad' = r[2]
By(i, log) == [j \in DOMAIN log |-> log[j] @@ [c |-> i]]

Init == \E i \in DOMAIN Cases :
          /\ case = i /\ s = Start(Cases[i].progs, Cases[i].mode, "win32") /\ co = [c \in DOMAIN Cases[i].progs |-> Fresh(Cases[i].progs[c])]
          /\ over = FALSE /\ order = <<>> /\ bad = {}
CanRun(i) == co[i].over = "no" /\ co[i].tok = <<>>
Failed == \E i \in DOMAIN co : co[i].over = "failed"
Run(i) ==
    /\ ~over /\ ~Failed /\ ~s.waitfailed /\ CanRun(i) /\ \A j \in 1..(i - 1) : ~CanRun(j)
    /\ LET a == Resume(co[i])
           c == [Stepped(co[i], a) EXCEPT !.req = 0]
           \* the request that is over is a generator too: as it ends it closes its event
           closed == IF co[i].req > 0 THEN <<[ev |-> "closed", n |-> co[i].req]>> ELSE <<>>
           io == IF c.tok # <<>> THEN <<Io(c.tok[1].n)>> ELSE <<>>
           now == c.tok # <<>> /\ s.mode = "sync"
       IN /\ Emit(closed \o By(i, a.log \o io) \o (IF now THEN <<[ev |-> "complete", n |-> c.tok[1].n]>> ELSE <<>>))
          /\ co' = [co EXCEPT ![i] = IF now THEN Completed(c) ELSE c]
    /\ UNCHANGED <<case, over, order>>
Tell(i) ==
    /\ ~over /\ ~Failed /\ ~s.waitfailed /\ \A j \in DOMAIN co : ~CanRun(j)
    /\ co[i].tok # <<>>
    /\ LET ns == {co[j].tok[1].n : j \in {x \in DOMAIN co : co[x].tok # <<>>}}
           sq == CHOOSE q \in [1..Cardinality(ns) -> ns] : Range(q) = ns
       IN Emit(<<[ev |-> "wait", ns |-> sq], [ev |-> "told", n |-> co[i].tok[1].n]>>)
    /\ co' = [co EXCEPT ![i] = Completed(co[i])]
    /\ order' = Append(order, co[i].tok[1].n)
    /\ UNCHANGED <<case, over>>
\* the wait itself fails, or takes too long: that is raised
WaitFails ==
    /\ ~over /\ ~Failed /\ ~s.waitfailed /\ ~Export /\ s.mode = "async"
    /\ \A j \in DOMAIN co : ~CanRun(j)
    /\ LET ns == {co[j].tok[1].n : j \in {x \in DOMAIN co : co[x].tok # <<>>}}
           sq == CHOOSE q \in [1..Cardinality(ns) -> ns] : Range(q) = ns
       IN ns # {} /\ Emit(<<[ev |-> "wait", ns |-> sq], [ev |-> "waitfail"]>>)
    /\ UNCHANGED <<co, case, over, order>>
End ==
    /\ ~over /\ (Failed \/ s.waitfailed \/ \A i \in DOMAIN co : co[i].over # "no")
    /\ over' = TRUE
    /\ Emit(<<IF s.waitfailed THEN [ev |-> "ret", out |-> [t |-> "x", v |-> <<"OSError">>], exc |-> -1]
              ELSE IF Failed THEN [ev |-> "ret", out |-> [t |-> "x", v |-> <<"E">>],
                              exc |-> co[CHOOSE i \in DOMAIN co : co[i].over = "failed"].exc.n]
              ELSE [ev |-> "ret", exc |-> 0,
                    out |-> IF s.mode = "sync" THEN co[1].res ELSE [t |-> "l", v |-> [i \in DOMAIN co |-> co[i].res]]]>>)
    /\ UNCHANGED <<case, co, order>>
Next == (\E i \in DOMAIN co : Run(i) \/ Tell(i)) \/ WaitFails \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* the trampoline and the reactor do what the direct style means
AlwaysAllowed == bad = {}
NeverStuck == over \/ ENABLED Next
Terminates == <>over
Shown == (Export /\ over) => PrintT(<<"BEH", ToJson([case |-> case, order |-> order])>>)
===============================================================================
