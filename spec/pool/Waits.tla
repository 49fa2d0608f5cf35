------------------------------- MODULE Waits -------------------------------
(* What waiting on an atomic variable means.  hist[x] is the sequence of values variable x has held;
   a waiter may see any value that is not older than one it saw before, and must return only with a
   value that satisfies its condition.  Owed(w) says when a wait may no longer be pending. *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Locs, Waiters, Initial
VARIABLES hist, last, pend, woken
wvars == <<hist, last, pend, woken>>
None == [kind |-> "none", loc |-> 0, arg |-> Initial, start |-> 0]
WInit == /\ hist = [x \in Locs |-> <<Initial>>] /\ last = [w \in Waiters |-> [x \in Locs |-> 1]]
         /\ pend = [w \in Waiters |-> None] /\ woken = [x \in Locs |-> 1]
Satisfies(kind, arg, v) == IF kind = "eq" THEN v = arg ELSE v # arg
Set(x, v) == hist' = [hist EXCEPT ![x] = Append(@, v)] /\ UNCHANGED <<last, pend, woken>>
Wake(x) == woken' = [woken EXCEPT ![x] = Len(hist[x])] /\ UNCHANGED <<hist, last, pend>>
Wait(w, kind, x, arg) == /\ pend' = [pend EXCEPT ![w] = [kind |-> kind, loc |-> x, arg |-> arg, start |-> Len(hist[x])]]
                         /\ UNCHANGED <<hist, last, woken>>
WaitOk(w) == pend[w].kind = "none"
Seen(w, x, v) == {i \in last[w][x]..Len(hist[x]) : hist[x][i] = v}
RetOk(w, v) == LET p == pend[w] IN p.kind # "none" /\ Satisfies(p.kind, p.arg, v) /\ Seen(w, p.loc, v) # {}
Min(s) == CHOOSE i \in s : \A j \in s : i <= j
Ret(w, v) == /\ last' = [last EXCEPT ![w][pend[w].loc] = Min(Seen(w, pend[w].loc, v))]
             /\ pend' = [pend EXCEPT ![w] = None] /\ UNCHANGED <<hist, woken>>
Owed(w) == LET p == pend[w] IN
  p.kind # "none" /\ LET h == hist[p.loc] IN
    /\ Satisfies(p.kind, p.arg, h[Len(h)])
    /\ p.kind # "block" \/ woken[p.loc] = Len(h) \/ p.start = Len(h)
StuckOk == \A w \in Waiters : ~ Owed(w)
\* The strategy chosen for a processor: 1 monitorx (AMD), 2 umonitor, 3 pause; dis[t] = 1: disabled.
DetectOk(amd, mwaitx, waitpkg, max7, dis, t) ==
  LET mx == amd = 1 /\ mwaitx = 1 /\ dis[1] = 0
      um == max7 = 1 /\ waitpkg = 1 /\ dis[2] = 0 IN
  /\ t \in 1..3
  /\ t = 1 => mwaitx = 1 /\ dis[1] = 0
  /\ t = 2 => um
  /\ t = 3 => ~ mx /\ ~ um
=============================================================================
