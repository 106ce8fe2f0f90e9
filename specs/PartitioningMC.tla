--------------------------- MODULE PartitioningMC ---------------------------
(* Design check: for every configuration the ranges tile the key groups, the
   owner of a group is the range containing it, and after a rescale from m to
   n operators every group is handed to its new owner by exactly one of the
   old operators' checkpoints.                                               *)
EXTENDS Partitioning, TLC
CONSTANTS MaxG, MaxN
VARIABLES g, n, m
Init == g \in 1..MaxG /\ n \in 1..MaxN /\ m \in 1..MaxN
Next == UNCHANGED <<g, n, m>>
Spec == Init /\ [][Next]_<<g, n, m>>
RangeOf(i, k) == <<Start(i, g, k), End(i, g, k)>>
Size(i) == End(i, g, n) - Start(i, g, n)
Tiles == /\ Start(0, g, n) = 0 /\ End(n - 1, g, n) = g
         /\ \A i \in 0..n-1 : Size(i) >= 0
         /\ \A i, j \in 0..n-1 : Size(i) - Size(j) \in {-1, 0, 1} /\ (i < j => Size(i) >= Size(j))
OwnerContains == \A kg \in 0..g-1 : LET o == Owner(kg, g, n) IN
                   /\ o \in 0..n-1 /\ Start(o, g, n) <= kg /\ kg < End(o, g, n)
                   /\ \A i \in 0..n-1 : (Start(i, g, n) <= kg /\ kg < End(i, g, n)) => i = o
\* what new operator i receives: every old checkpoint whose range overlaps its range
Assigned(i) == {j \in 0..m-1 : Overlaps(RangeOf(j, m), RangeOf(i, n))}
Rescale == \A kg \in 0..g-1 : LET new == Owner(kg, g, n) old == Owner(kg, g, m) IN
             \* its data arrives at the new owner
             old \in Assigned(new)
RescaleTight == \A i \in 0..n-1 : \A j \in Assigned(i) : \E kg \in 0..g-1 : Owner(kg, g, n) = i /\ Owner(kg, g, m) = j
\* published test vectors of MurmurHash3_x86_32 with seed 0
Vectors ==
  /\ Murmur(<<>>) = <<0, 0, 0, 0>>
  /\ Murmur(<<255, 255, 255, 255>>) = <<80, 59, 41, 118>>                                                  \* 0x76293b50
  /\ Murmur(<<116, 101, 115, 116>>) = <<19, 210, 107, 186>>                                                \* "test" 0xba6bd213
  /\ Murmur(<<72, 101, 108, 108, 111, 44, 32, 119, 111, 114, 108, 100, 33>>) = <<67, 62, 54, 192>>         \* "Hello, world!" 0xc0363e43
=============================================================================
