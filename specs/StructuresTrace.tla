-------------------------- MODULE StructuresTrace ---------------------------
EXTENDS Structures, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Trace[l]
Is(n) == l <= Len(Trace) /\ E.ev = n /\ l' = l + 1
Fine == E.panic = ""
TraceInit == SInit /\ l = 1
TraceNext ==
  \/ Is("Begin") /\ New(E.kind, E.max)
  \/ Is("ZipPut") /\ Fine /\ ZipPut(E.k, E.v, E.old)
  \/ Is("ZipObs") /\ Fine /\ ZipObserve(E.gets, E.scans)
  \/ Is("CPush") /\ Fine /\ CachePush(E.k)
  \/ Is("CPop") /\ Fine /\ CachePop(E.ok, E.k)
  \/ Is("CPopLast") /\ Fine /\ CachePopLast(E.ok, E.k)
  \/ Is("CDelete") /\ Fine /\ CacheDelete(E.k)
  \/ Is("CObs") /\ Fine /\ CacheObserve(E.ok, E.k, E.empty, E.full)
  \/ Is("HPush") /\ Fine /\ HeapPush(E.id, E.p)
  \/ Is("HPop") /\ Fine /\ HeapPop(E.id)
  \/ Is("HFix") /\ Fine /\ HeapFix(E.id, E.p)
  \/ Is("HDelete") /\ Fine /\ HeapDelete(E.id)
  \/ Is("HObs") /\ Fine /\ HeapObserve(E.id, E.empty, E.size)
  \/ Is("SOf") /\ Fine /\ SetOf(E.dst, E.xs)
  \/ Is("SAdd") /\ Fine /\ SetAdd(E.dst, E.xs)
  \/ Is("SAdded") /\ Fine /\ SetAdded(E.src, E.dst, E.xs)
  \/ Is("SWithout") /\ Fine /\ SetWithout(E.src, E.dst, E.xs)
  \/ Is("SDiff") /\ Fine /\ SetDiff(E.src, E.b, E.dst)
  \/ Is("SObs") /\ Fine /\ SetObserve(E.obs)
  \/ Is("MSet") /\ Fine /\ SmapSet(E.k, E.v, E.new)
  \/ Is("MDelete") /\ Fine /\ SmapDelete(E.k, E.removed)
  \/ Is("MObs") /\ Fine /\ SmapObserve(E.keys, E.values, E.all, E.size, E.gets)
  \/ Is("Merge") /\ Fine /\ MergeResult(E.lists, E.limit, E.out)
  \/ Is("MergeSorted") /\ Fine /\ MergeSortedResult(E.lists, E.limit, E.out)
  \/ Is("Search") /\ Fine /\ SearchResult(E.xs, E.res)
TraceSpec == TraceInit /\ [][TraceNext]_<<svars, l>>
TraceAccepted ==
  LET n == TLCGet("stats").diameter - 1 IN
  PrintT(<<"MATCHED", n, Len(Trace)>>) /\ n = Len(Trace)
=============================================================================
