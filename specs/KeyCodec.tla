------------------------------- MODULE KeyCodec -------------------------------
(* The database keys under which an operator stores the entries of a subject  *)
(* key and its timers: key group, schema, length of the subject key, subject  *)
(* key, length of the namespace (long ones: a marker and a longer length),    *)
(* namespace, entry key.  Scaled down: bytes are 0..Top, a namespace of Top   *)
(* or more bytes is long.  All keys over a small alphabet are enumerated.     *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Top, Alphabet, MaxKey, MaxNs, MaxEntry, LongLength
ASSUME Alphabet \subseteq 0..Top
Strings(n) == UNION {[1..k -> Alphabet] : k \in 0..n}
Group(key) == IF key = <<>> THEN 0 ELSE key[1] % 2
Len2(n) == <<n \div (Top + 1), n % (Top + 1)>>
NsLen(ns) == IF ~LongLength THEN <<Len(ns) % (Top + 1)>>
             ELSE IF Len(ns) < Top THEN <<Len(ns)>> ELSE <<Top>> \o Len2(Len(ns))
Prefix(key) == <<Group(key), 0>> \o Len2(Len(key)) \o key
Encode(key, ns, e) == Prefix(key) \o NsLen(ns) \o ns \o e
TimerKey(key, t) == <<Group(key), 1>> \o t \o key
HasPrefix(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
VARIABLES a, b
vars == <<a, b>>
Entries == Strings(MaxKey) \X Strings(MaxNs) \X Strings(MaxEntry)
Init == a \in Entries /\ b \in Entries
Next == UNCHANGED vars
KCSpec == Init /\ [][Next]_vars
\* what is found under the prefix of a subject key is exactly its entries
OwnOnly == HasPrefix(Encode(a[1], a[2], a[3]), Prefix(b[1])) <=> a[1] = b[1]
\* different entries have different database keys: nothing is overwritten by another entry
Distinct == Encode(a[1], a[2], a[3]) = Encode(b[1], b[2], b[3]) => a = b
\* the entries of one namespace are next to each other in the order of the database
Before(s, t) == \E i \in 1..Len(t) : /\ \A j \in 1..i - 1 : j <= Len(s) /\ s[j] = t[j]
                                     /\ (i > Len(s) \/ s[i] < t[i])
Together == (a[1] = b[1] /\ a[2] # b[2]) =>
              LET x == Prefix(a[1]) \o NsLen(a[2]) \o a[2]
                  y == Prefix(b[1]) \o NsLen(b[2]) \o b[2]
              IN ~HasPrefix(x, y)
\* timers are never found under the prefix of a subject key
NoTimers == \A t \in [1..2 -> Alphabet] : ~HasPrefix(TimerKey(a[1], t), Prefix(b[1]))
=============================================================================
