------------------------------ MODULE Coroutine ------------------------------
(* What coroutines mean: the direct style.  A body is a sequence of statements:

     eff n                an effect
     val n v [as]         x = yield v                 got n x
                          (as: v stands for a value of some other type)
     tok n ok v [imm]     x = yield an I/O token      io n, then got n x
     sub n b              x = yield a coroutine       got n x
     chain n d b          the same through d coroutines that each yield the next
     raise n cls          raise exception n
     reraise              raise the exception being handled
     ret                  return
     try n b c h f        try b, on exceptions of class c ("all", "E", "-": no handler)
                          caught n and h, finally f

   Do(b, last, cur) is the meaning of b as if all calls were ordinary nested calls:
   the events in order, how it ends, and the value of its last yield (nothing if there
   was none, or if it raised).                                                       *)
EXTENDS Bytes

Num(n) == [t |-> "i", v |-> OfNat(n)]
R(log, how, last, exc) == [log |-> log, how |-> how, last |-> last, exc |-> exc]
NoExc == [n |-> 0, cls |-> "-"]
Catches(c, x) == c = "all" \/ (c = "E" /\ x.cls = "E")
Got(n, x) == [ev |-> "got", n |-> n, out |-> x, exc |-> 0]
Eff(n) == [ev |-> "eff", n |-> n, out |-> Nil, exc |-> 0]
Io(n) == [ev |-> "io", n |-> n, out |-> Nil, exc |-> 0]
Caught(n, x) == [ev |-> "caught", n |-> n, out |-> Nil, exc |-> x.n]
ValOf(s) == IF s.v < 0 THEN Nil ELSE Num(s.v)

RECURSIVE Do(_, _, _)
Step(s, last, cur) ==
    CASE s.k = "eff" -> R(<<Eff(s.n)>>, "end", last, NoExc)
      [] s.k = "val" -> R(<<Got(s.n, ValOf(s))>>, "end", ValOf(s), NoExc)
      [] s.k = "tok" -> IF s.ok THEN R(<<Io(s.n), Got(s.n, ValOf(s))>>, "end", ValOf(s), NoExc)
                        ELSE R(<<Io(s.n)>>, "exc", Nil, [n |-> s.n, cls |-> "E"])
      [] s.k \in {"sub", "chain"} ->
            LET r == Do(s.b, Nil, NoExc)
            IN IF r.how = "exc" THEN R(r.log, "exc", Nil, r.exc)
               ELSE R(Append(r.log, Got(s.n, r.last)), "end", r.last, NoExc)
      [] s.k = "raise" -> R(<<>>, "exc", last, [n |-> s.n, cls |-> s.cls])
      [] s.k = "reraise" -> R(<<>>, "exc", last, cur)
      [] s.k = "ret" -> R(<<>>, "ret", last, NoExc)
      [] s.k = "try" ->
            LET r == Do(s.b, last, cur)
                h == Do(s.h, r.last, r.exc)
                q == IF r.how = "exc" /\ Catches(s.c, r.exc)
                     THEN R(Append(r.log, Caught(s.n, r.exc)) \o h.log, h.how, h.last, h.exc) ELSE r
                f == Do(s.f, q.last, cur)
            IN IF f.how = "end" THEN R(q.log \o f.log, q.how, f.last, q.exc)
               ELSE R(q.log \o f.log, f.how, f.last, f.exc)
Do(b, last, cur) ==
    IF b = <<>> THEN R(<<>>, "end", last, NoExc)
    ELSE LET r == Step(Head(b), last, cur)
         IN IF r.how # "end" THEN r
            ELSE LET q == Do(Tail(b), r.last, cur) IN R(r.log \o q.log, q.how, q.last, q.exc)

Meaning(b) == Do(b, Nil, NoExc)

(* Several of them under a reactor: each does what it means, in its own time.
   State: for each coroutine how far it is; what I/O has completed; who was told last. *)
Start(progs, mode, io) ==
    [mode |-> mode, io |-> io, m |-> [c \in DOMAIN progs |-> Meaning(progs[c])], pos |-> [c \in DOMAIN progs |-> 0],
     done |-> {}, told |-> 0, over |-> FALSE, closed |-> {},
     waitfailed |-> FALSE]
If(c, name) == IF c THEN {} ELSE {name}
Here(s, c) == s.m[c].log[s.pos[c]]
AtEnd(s, c) == s.pos[c] = Len(s.m[c].log)
\* coroutine c waits for its I/O
Parked(s, c) == s.pos[c] > 0 /\ Here(s, c).ev = "io"
Waits(s, c) == Parked(s, c) /\ Here(s, c).n \notin s.done
IoOf(s, P(_, _)) == {Here(s, c).n : c \in {x \in DOMAIN s.pos : P(s, x)}}
Pending(s) == IoOf(s, Waits)
Finished(s, c) == AtEnd(s, c) /\ ~Waits(s, c)
Fails(s, c) == s.m[c].how = "exc"

\* the traceback of an exception leads to the body that raised it (at: the statements of the body it leads to)
LeadsHome(e) == If("at" \in DOMAIN e => e.exc \in Range(e.at), "the traceback does not lead to where the exception was raised")
StepBad(s, e) ==
    If(~s.over, "runs after the end")
    \cup If(~s.waitfailed, "a coroutine runs although waiting failed")
    \cup (IF AtEnd(s, e.c) THEN {"goes on although it should have ended"}
          ELSE LET w == s.m[e.c].log[s.pos[e.c] + 1]
               IN If(w.ev = e.ev /\ w.n = e.n, "does something else than the program")
                  \cup If(w.ev = e.ev => IF e.ev = "got" THEN e.out = w.out ELSE TRUE, "a yield gives another value")
                  \cup If(w.ev = e.ev => IF e.ev = "caught" THEN e.exc = w.exc ELSE TRUE, "another exception")
                  \cup (IF e.ev = "caught" THEN LeadsHome(e) ELSE {}))
    \cup If(~Waits(s, e.c), "resumes before its I/O has completed")
StepAfter(s, e) == [s EXCEPT !.pos[e.c] = @ + 1, !.told = IF e.c = s.told THEN 0 ELSE @]
Completes(s, e) == If(s.mode = "sync" \/ e.n \in Pending(s), "I/O completes that nobody waits for")
\* Windows waits for no more than so many events at a time
MaxWait == 64
WaitBad(s, e) ==
    If(Len(e.ns) \in 1..MaxWait, "waits for more events than the system can")
    \cup
    If(s.mode = "async" /\ ~s.over /\ ~s.waitfailed, "waits out of the blue")
    \cup If((Pending(s) \subseteq Range(e.ns) \/ Len(e.ns) = MaxWait) /\ Range(e.ns) \subseteq IoOf(s, Parked), "waits for other I/O than what is pending")
    \cup If(Len(e.ns) = Cardinality(Range(e.ns)), "waits for the same I/O twice")
    \cup If(s.told = 0 \/ Finished(s, s.told), "a coroutine was not resumed although its I/O has completed")
    \cup If(\A c \in DOMAIN s.pos : Parked(s, c) \/ Finished(s, c), "waits although a coroutine can run")
\* the I/O whose outcome coroutine c has been given, as far as its events show that
Past(s, c) == {s.m[c].log[i].n : i \in {j \in 1..(s.pos[c] - 1) : s.m[c].log[j].ev = "io"}}
\* and if it is known that it has ended
Ended(s, c) == IF s.pos[c] > 0 /\ Here(s, c).ev = "io" THEN {Here(s, c).n} ELSE {}
\* a request's event object goes when its outcome has been taken, and not before
CloseBad(s, e) == If(e.n > 0 /\ e.n \in s.done /\ e.n \notin s.closed, "closes something else than the event of an I/O that is over")
LeakBad(s, e) == If(\A c \in DOMAIN s.m : Past(s, c) \cup (IF s.mode = "sync" \/ ~Raised(e.out) THEN Ended(s, c) ELSE {}) \subseteq s.closed,
                    "the event of an I/O is not closed")
RetBad(s, e) ==
    IF s.waitfailed THEN If(Raised(e.out), "waiting failed, and that is not raised")
    ELSE IF \E c \in DOMAIN s.m : Finished(s, c) /\ Fails(s, c)
    THEN If(Raised(e.out) /\ \E c \in DOMAIN s.m : Finished(s, c) /\ Fails(s, c) /\ e.exc = s.m[c].exc.n, "the exception of the coroutine is not raised")
         \cup LeadsHome(e)
    ELSE If(\A c \in DOMAIN s.m : Finished(s, c), "ends although a coroutine has not finished")
         \cup If(~Raised(e.out), "raises although nothing failed")
         \cup (IF s.mode = "sync" THEN If(e.out = s.m[1].last, "another result than that of the last yield")
               ELSE If(IsList(e.out) /\ Len(e.out.v) = Len(s.m) /\ \A c \in DOMAIN s.m : e.out.v[c] = s.m[c].last,
                       "other results than those of the last yields"))

Bad(s, e) ==
    CASE e.ev \in {"eff", "got", "caught", "io"} -> StepBad(s, e)
      [] e.ev = "complete" -> Completes(s, e)
      [] e.ev = "wait" -> WaitBad(s, e)
      [] e.ev = "waitfail" -> {}
      [] e.ev = "told" -> If(e.n \in s.done \/ e.n \in Pending(s), "told of I/O that has not completed")
      [] e.ev = "closed" -> CloseBad(s, e)
      [] e.ev = "ret" -> RetBad(s, e) \cup (IF s.io = "win32" THEN LeakBad(s, e) ELSE {})
      [] OTHER -> {e.ev}
After(s, e) ==
    CASE e.ev \in {"eff", "got", "caught", "io"} -> StepAfter(s, e)
      [] e.ev = "complete" -> [s EXCEPT !.done = @ \cup {e.n}]
      [] e.ev = "told" -> [s EXCEPT !.done = @ \cup {e.n},
                                    !.told = IF \E c \in DOMAIN s.pos : Parked(s, c) /\ Here(s, c).n = e.n
                                             THEN CHOOSE c \in DOMAIN s.pos : Parked(s, c) /\ Here(s, c).n = e.n ELSE 0]
      [] e.ev = "ret" -> [s EXCEPT !.over = TRUE]
      [] e.ev = "closed" -> [s EXCEPT !.closed = @ \cup {e.n}]
      [] e.ev = "waitfail" -> [s EXCEPT !.waitfailed = TRUE]
      [] OTHER -> s
===============================================================================
