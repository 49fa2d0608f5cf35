---------------------------- MODULE PaddedTrace ----------------------------
EXTENDS Padded, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ep, l, nd, im, env
vars == <<nd, im, env, ep, l>>
TInit == /\ ep \in 1..Len(Trace) /\ l = 1
         /\ nd = [ts |-> 1, vb |-> 1, shape |-> << >>, alloc |-> << >>, p |-> -1, base |-> -1, lim |-> 0]
         /\ im = [s \in 0..3 |-> NoImage] /\ env = [ts |-> 1, vb |-> 1]
E == Trace[ep].ev[l]
\* The image an "image" event creates; its address and stride are learnt from the following report.
Made(e) == [x |-> e[3], y |-> e[4], bpr |-> -1, p |-> -1,
            own |-> IF e[3] = 0 \/ e[4] = 0 THEN -1 ELSE e[5][1][3], lim |-> IF e[3] = 0 \/ e[4] = 0 THEN 0 ELSE LimitOf(e[5])]
MadeOk(e) ==
  IF e[3] = 0 \/ e[4] = 0 THEN FreedOk(im[e[2]], e[5])
  ELSE Len(e[5]) >= 1 /\ e[5][1][1] = "a" /\ e[5][1][3] >= 0 /\ FreedOk(im[e[2]], SubSeq(e[5], 2, Len(e[5])))
Learn(i, e) == IF i.bpr = -1 THEN [i EXCEPT !.bpr = e[5], !.p = e[7]] ELSE i
ReportOk(e) ==
  LET i == Learn(im[e[2]], e) IN
  /\ e[3] = i.x /\ e[4] = i.y /\ e[9] = 1
  /\ (im[e[2]].bpr = -1 => StrideOk(i, env.ts, env.vb) /\ (i.own >= 0 => i.p > i.own))
  /\ (i.p # -1 => e[5] = i.bpr /\ e[7] = i.p /\ e[6] = i.bpr \div env.ts)
  /\ RowAddrs(i, e[8])
\* three planes: same size and stride, pairwise disjoint buffers
Planes(e) == e[8]
Image3Ok(e) ==
  LET x == e[4]  y == e[5]  bpr == e[6] IN
  /\ e[9] = 1 /\ e[7] = bpr \div e[2]
  /\ bpr % e[3] = 0 /\ bpr % LineAlign = 0 /\ bpr % 2048 # 0 /\ bpr >= x * e[2] + (IF e[3] = 1 THEN 0 ELSE e[3] - e[2])
  /\ \A c \in 1..3 : Len(Planes(e)[c]) = y /\ \A r \in 1..y : Planes(e)[c][r] = Planes(e)[c][1] + (r - 1) * bpr
  /\ \A c \in 1..3 : Planes(e)[c][1] % LineAlign = 0
  /\ (e[1] = "image3" => /\ Len(e[10]) = 3
        /\ {c \in 1..3 : \E k \in 1..3 : e[10][k][3] <= Planes(e)[c][1] /\ Planes(e)[c][1] + y * bpr <= e[10][k][3] + Size4(e[10][k][2])} = 1..3
        /\ \A c, d \in 1..3 : c # d => Planes(e)[c][1] + y * bpr <= Planes(e)[d][1] \/ Planes(e)[d][1] + y * bpr <= Planes(e)[c][1])
Ok(e) ==
  CASE e[1] = "nd" -> Len(e[5]) = 1 /\ e[5][1][1] = "a" /\ e[5][1][3] >= 0
    [] e[1] = "rows" -> RowsOk(nd, e[2], e[3], e[4], e[5], e[6]) /\ e[7] = 1
    [] e[1] = "truncate" -> TRUE
    [] e[1] = "enddel" -> e[2] = << <<"f", nd.base, 1>> >> /\ e[3] = 1
    [] e[1] = "start" -> e[3] = e[4]
    [] e[1] = "image" -> MadeOk(e)
    [] e[1] = "extern" -> FreedOk(im[e[2]], e[8])
    [] e[1] = "move" -> FreedOk(im[e[2]], e[4])
    [] e[1] = "clear" -> FreedOk(im[e[2]], e[3])
    [] e[1] = "swap" -> e[4] = << >>
    [] e[1] = "shrink" -> e[5] = << >>
    [] e[1] = "report" -> ReportOk(e)
    [] e[1] = "endimg" -> e[2] = 0 /\ e[3] = 1
    [] e[1] = "image3" -> Image3Ok(e)
    [] e[1] = "same3" -> Image3Ok(e) /\ e[4] = env.ts /\ e[5] = env.vb     \* size carried by env, see Effect
    [] e[1] = "shrink3" -> TRUE
    [] e[1] = "rect" -> e[8] = e[2] /\ e[9] = e[3] /\ e[10] = Clamped(e[2], e[4], e[6]) /\ e[11] = Clamped(e[3], e[5], e[7])
    [] e[1] = "subrect" -> e[10] = <<e[2] + e[6], e[3] + e[7], Clamped(e[2] + e[6], e[8], e[2] + e[4]), Clamped(e[3] + e[7], e[9], e[3] + e[5])>>
    [] e[1] = "inside" -> e[8] = IF e[2] + e[4] <= e[6] /\ e[3] + e[5] <= e[7] THEN 1 ELSE 0
    [] e[1] = "rect4" -> e[4] = <<0, 0, e[2], e[3]>> /\ e[5] = <<0, 0, 0, 0>>
    [] e[1] = "rectrow" -> e[6] = (e[3] + e[4]) * e[5] + e[2] /\ e[7] = e[6] /\ e[8] = e[9]
    [] e[1] = "mirror" -> e[4] = MirrorOf(e[2], e[3]) /\ e[5] = e[4]
    [] e[1] = "same" -> e[2] = e[3]
    [] e[1] = "wraprow" -> e[4] = MirrorOf(e[2], e[3]) /\ e[5] = 0
    [] OTHER -> FALSE
Effect(e) ==
  CASE e[1] = "nd" -> nd' = [ts |-> e[2], vb |-> e[3], shape |-> e[4], alloc |-> e[4], p |-> e[6], base |-> e[5][1][3], lim |-> LimitOf(e[5])] /\ UNCHANGED <<im, env>>
    [] e[1] = "truncate" -> nd' = [nd EXCEPT !.shape = e[2]] /\ UNCHANGED <<im, env>>
    [] e[1] = "start" -> env' = [ts |-> e[2], vb |-> e[3]] /\ UNCHANGED <<nd, im>>
    [] e[1] = "image3" -> env' = [ts |-> e[4], vb |-> e[5]] /\ UNCHANGED <<nd, im>>
    [] e[1] = "shrink3" -> env' = [ts |-> e[2], vb |-> e[3]] /\ UNCHANGED <<nd, im>>
    [] e[1] = "image" -> im' = [im EXCEPT ![e[2]] = Made(e)] /\ UNCHANGED <<nd, env>>
    [] e[1] = "extern" -> im' = [im EXCEPT ![e[2]] = [x |-> e[3], y |-> e[4], bpr |-> e[5], p |-> e[6], own |-> -1, lim |-> e[6] + e[7]]] /\ UNCHANGED <<nd, env>>
    [] e[1] = "move" -> im' = [im EXCEPT ![e[2]] = im[e[3]], ![e[3]] = NoImage] /\ UNCHANGED <<nd, env>>
    [] e[1] = "clear" -> im' = [im EXCEPT ![e[2]] = NoImage] /\ UNCHANGED <<nd, env>>
    [] e[1] = "swap" -> im' = [im EXCEPT ![e[2]] = im[e[3]], ![e[3]] = im[e[2]]] /\ UNCHANGED <<nd, env>>
    [] e[1] = "shrink" -> im' = [im EXCEPT ![e[2]].x = e[3], ![e[2]].y = e[4]] /\ UNCHANGED <<nd, env>>
    [] e[1] = "report" -> im' = [im EXCEPT ![e[2]] = Learn(im[e[2]], e)] /\ UNCHANGED <<nd, env>>
    [] OTHER -> UNCHANGED <<nd, im, env>>
Next == /\ l <= Len(Trace[ep].ev) /\ ep' = ep
        /\ IF Ok(E) THEN Effect(E) /\ l' = l + 1
           ELSE PrintT("REJECT " \o ToString(<<ep, l, nd, im, env>>)) /\ l' = Len(Trace[ep].ev) + 1 /\ UNCHANGED <<nd, im, env>>
TSpec == TInit /\ [][Next]_vars
=============================================================================
