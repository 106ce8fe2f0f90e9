---------------------------- MODULE Partitioning ----------------------------
(* Key groups, their ranges, and the hash that assigns a key to its group.   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Bitwise
(* ---- 32 bit arithmetic on little-endian byte quadruples ------------------ *)
U32(a, b, c, d) == <<a, b, c, d>>
Zero32 == <<0, 0, 0, 0>>
Mul32(x, y) ==
  LET r0 == x[1] * y[1]
      r1 == x[1] * y[2] + x[2] * y[1] + r0 \div 256
      r2 == x[1] * y[3] + x[2] * y[2] + x[3] * y[1] + r1 \div 256
      r3 == x[1] * y[4] + x[2] * y[3] + x[3] * y[2] + x[4] * y[1] + r2 \div 256
  IN <<r0 % 256, r1 % 256, r2 % 256, r3 % 256>>
Add32(x, y) ==
  LET r0 == x[1] + y[1]
      r1 == x[2] + y[2] + r0 \div 256
      r2 == x[3] + y[3] + r1 \div 256
      r3 == x[4] + y[4] + r2 \div 256
  IN <<r0 % 256, r1 % 256, r2 % 256, r3 % 256>>
Xor32(x, y) == <<x[1] ^^ y[1], x[2] ^^ y[2], x[3] ^^ y[3], x[4] ^^ y[4]>>
\* rotate right by s < 8 bits (p = 2^s)
Ror(x, p) == LET q == 256 \div p IN
  <<x[1] \div p + (x[2] % p) * q, x[2] \div p + (x[3] % p) * q, x[3] \div p + (x[4] % p) * q, x[4] \div p + (x[1] % p) * q>>
Rol16(x) == <<x[3], x[4], x[1], x[2]>>
Rol15(x) == Ror(Rol16(x), 2)
Rol13(x) == Ror(Rol16(x), 8)
Shr16(x) == <<x[3], x[4], 0, 0>>
Shr13(x) == <<x[2] \div 32 + (x[3] % 32) * 8, x[3] \div 32 + (x[4] % 32) * 8, x[4] \div 32, 0>>
(* ---- MurmurHash3 (x86, 32 bit), seed 0 ----------------------------------- *)
MC1 == <<81, 45, 158, 204>>     \* 0xcc9e2d51
MC2 == <<147, 53, 135, 27>>     \* 0x1b873593
MN == <<100, 107, 84, 230>>     \* 0xe6546b64
MF1 == <<107, 202, 235, 133>>   \* 0x85ebca6b
MF2 == <<53, 174, 178, 194>>    \* 0xc2b2ae35
Five == <<5, 0, 0, 0>>
Scramble(k) == Mul32(Rol15(Mul32(k, MC1)), MC2)
Round(key, h, i) == Add32(Mul32(Rol13(Xor32(h, Scramble(<<key[i], key[i+1], key[i+2], key[i+3]>>))), Five), MN)
Body(key) == FoldLeft(LAMBDA h, i : Round(key, h, i), Zero32, [j \in 1..(Len(key) \div 4) |-> 4 * j - 3])
TailWord(key) ==
  LET n == Len(key) b == (n \div 4) * 4 IN
  CASE n % 4 = 0 -> Zero32
    [] n % 4 = 1 -> <<key[b+1], 0, 0, 0>>
    [] n % 4 = 2 -> <<key[b+1], key[b+2], 0, 0>>
    [] OTHER     -> <<key[b+1], key[b+2], key[b+3], 0>>
Final(h, n) ==
  LET a == Xor32(h, <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, 0>>)
      b == Mul32(Xor32(a, Shr16(a)), MF1)
      c == Mul32(Xor32(b, Shr13(b)), MF2)
  IN Xor32(c, Shr16(c))
Murmur(key) == LET h == Body(key) IN Final(IF Len(key) % 4 = 0 THEN h ELSE Xor32(h, Scramble(TailWord(key))), Len(key))
Mod32(x, g) == ((((((x[4] % g) * 256 + x[3]) % g) * 256 + x[2]) % g) * 256 + x[1]) % g
KeyGroup(key, g) == Mod32(Murmur(key), g)
(* ---- ranges: 0-based range i of g groups over n operators ----------------- *)
Start(i, g, n) == i * (g \div n) + (IF i < g % n THEN i ELSE g % n)
End(i, g, n) == Start(i + 1, g, n)
Owner(kg, g, n) ==      \* the operator whose range contains the group
  LET q == g \div n r == g % n IN
  IF kg < r * (q + 1) THEN kg \div (q + 1) ELSE r + (kg - r * (q + 1)) \div q
Overlaps(a, b) == a[1] < b[2] /\ b[1] < a[2]
=============================================================================
