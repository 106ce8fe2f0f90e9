------------------------------ MODULE TableTrace ------------------------------
(* What the real table writer, tables and write-ahead log must return (C17).    *)
(* An entry is <<key, seq, what>>; what is "D" for a tombstone, "P"+hex of the   *)
(* value for a put.  A lookup answers "-" or seq ":" what.                       *)
EXTENDS ByteSeq, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, tabs, \* table -> map key -> <<seq, what>>
          log, trunc, gen
vars == <<l, tabs, log, trunc, gen>>
E == Trace[l]
Is(n) == l <= Len(Trace) /\ E.ev = n /\ l' = l + 1
Fine == E.panic = ""
MapOf(es) == [k \in {es[i][1] : i \in 1..Len(es)} |->
                LET i == CHOOSE i \in 1..Len(es) : es[i][1] = k IN <<es[i][2], es[i][3]>>]
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s).es \o Flat(Tail(s))
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(S) == CHOOSE x \in S : \A y \in S : x >= y
Seqs(es) == {es[i][2] : i \in 1..Len(es)}
Init == l = 1 /\ tabs = EmptyMap /\ log = <<>> /\ trunc = 0 /\ gen = <<>>
Begin == Is("Begin") /\ tabs' = EmptyMap /\ log' = <<>> /\ trunc' = 0 /\ gen' = <<>>
\* ---- tables
Described(t) ==
   /\ t.lo = t.es[1][1] /\ t.hi = t.es[Len(t.es)][1]
   /\ t.slo = Min(Seqs(t.es)) /\ t.shi = Max(Seqs(t.es))
Wrote(n, ts) == tabs' = [x \in DOMAIN tabs \cup {ts[i].id : i \in 1..Len(ts)} |->
                   IF x \in DOMAIN tabs THEN tabs[x] ELSE LET i == CHOOSE i \in 1..Len(ts) : ts[i].id = x IN MapOf(ts[i].es)]
\* a run written as one table, or split
Run == /\ Is("Run") /\ Fine
       /\ LET ts == E.tables IN
          /\ Flat(ts) = E.run
          /\ \A i \in 1..Len(ts) : ts[i].es # <<>> /\ ts[i].id \notin DOMAIN tabs /\ Described(ts[i])
          /\ \A i \in 1..Len(ts)-1 : LexLess(ts[i].hi, ts[i+1].lo)
          /\ Cardinality({ts[i].id : i \in 1..Len(ts)}) = Len(ts)
          /\ E.whole => Len(ts) = (IF E.run = <<>> THEN 0 ELSE 1)
          /\ Wrote(0, ts)
       /\ UNCHANGED <<log, trunc, gen>>
Show(e) == ToString(e[1]) \o ":" \o e[2]
\* <<key, answer, answer of the re-opened table, bloom filter>>
Gets == /\ Is("Gets") /\ Fine
        /\ \A i \in 1..Len(E.gets) :
             LET g == E.gets[i] m == tabs[E.id] want == IF g[1] \in DOMAIN m THEN Show(m[g[1]]) ELSE "-" IN
             g[2] = want /\ g[3] = want
        /\ UNCHANGED <<tabs, log, trunc, gen>>
Scan == /\ Is("Scan") /\ Fine
        /\ LET m == tabs[E.id] S == Under(m, E.p) IN
           \A o \in {E.out, E.out2} :
             /\ Len(o) = Cardinality(S)
             /\ \A i \in 1..Len(o) : o[i][1] \in S /\ m[o[i][1]] = <<o[i][2], o[i][3]>>
             /\ \A i \in 1..Len(o)-1 : LexLess(o[i][1], o[i+1][1])
        /\ UNCHANGED <<tabs, log, trunc, gen>>
\* ---- a large table of the keys base+step, base+2*step ... (four bytes): too long to list
Gen == Is("Gen") /\ Fine /\ gen' = <<E.n, E.base, E.step>> /\ UNCHANGED <<tabs, log, trunc>>
GenHas(x) == LET d == x - gen[2] IN d > 0 /\ d % gen[3] = 0 /\ d \div gen[3] <= gen[1]
GenGets == /\ Is("GenGets") /\ Fine
           /\ \A i \in 1..Len(E.gets) : LET g == E.gets[i] IN
                /\ g[2] = (IF GenHas(g[1]) THEN (g[1] - gen[2]) \div gen[3] ELSE -1)
                /\ g[3] = g[2]
           /\ UNCHANGED <<tabs, log, trunc, gen>>
\* a scan of a two or three byte prefix covers the keys in [from, to)
GenScan == /\ Is("GenScan") /\ Fine
           /\ LET lo == IF E.from <= gen[2] THEN 1 ELSE (E.from - gen[2] + gen[3] - 1) \div gen[3]
                  hi == IF E.to <= gen[2] THEN 0 ELSE LET h == (E.to - 1 - gen[2]) \div gen[3] IN IF h > gen[1] THEN gen[1] ELSE h IN
              IF hi < lo THEN E.count = 0 ELSE E.count = hi - lo + 1 /\ E.first = lo /\ E.last = hi
           /\ UNCHANGED <<tabs, log, trunc, gen>>
\* ---- write-ahead log
WApp == /\ Is("WApp") /\ Fine /\ log' = Append(log, <<E.k, E.s, E.w>>) /\ UNCHANGED <<tabs, trunc, gen>>
WCut == Is("WCut") /\ Fine /\ UNCHANGED <<tabs, log, trunc, gen>>
WTrunc == Is("WTrunc") /\ Fine /\ trunc' = E.s /\ UNCHANGED <<tabs, log, gen>>
WSave == Is("WSave") /\ Fine /\ UNCHANGED <<tabs, log, trunc, gen>>
\* reading the file saved with the first n operations appended, from a marker the owner may use
WRead == /\ Is("WRead") /\ Fine
         /\ E.out = SelectSeq(SubSeq(log, 1, E.n), LAMBDA e : e[2] > E.after)
         /\ UNCHANGED <<tabs, log, trunc, gen>>
Next == Begin \/ Run \/ Gets \/ Scan \/ Gen \/ GenGets \/ GenScan \/ WApp \/ WCut \/ WTrunc \/ WSave \/ WRead
TraceSpec == Init /\ [][Next]_vars
TraceAccepted ==
  LET n == TLCGet("stats").diameter - 1 IN
  PrintT(<<"MATCHED", n, Len(Trace)>>) /\ n = Len(Trace)
=============================================================================
