------------------------------- MODULE MC_GF --------------------------------
(* Residue classes form a ring, and a field for primes: all triples.        *)
EXTENDS GF
CONSTANT Fields  \* 10 * p + k
VARIABLES st, phase
Init == phase = 0 /\ \E f \in Fields : st = Begin([fields |-> <<<<f \div 10, f % 10>>>>, k |-> 3])
Elems(s) == {Cls(s, 1, QOfInt(n)) : n \in 0..(QToInt(Size(s, 1)) - 1)}
Next == phase < 3 /\ phase' = phase + 1 /\ \E x \in Elems(st) : st' = [st EXCEPT !.reg[phase + 1] = x]
A(x, y) == Bin(st, "add", x, y)
M(x, y) == Bin(st, "mul", x, y)
Laws == phase = 3 =>
  LET x == R(st, 1)  y == R(st, 2)  z == R(st, 3)  one == Cls(st, 1, "1") IN
  /\ A(x, y) = A(y, x) /\ M(x, y) = M(y, x)
  /\ A(A(x, y), z) = A(x, A(y, z)) /\ M(M(x, y), z) = M(x, M(y, z))
  /\ M(x, A(y, z)) = A(M(x, y), M(x, z))
  /\ A(Bin(st, "sub", x, y), y) = x
  /\ Unit(st, x) => M(Inv(st, x), x) = one
  /\ Unit(st, x) <=> \E u \in Elems(st) : M(u, x) = one
  /\ Cls(st, 1, QSub(x.n, Size(st, 1))) = x
  /\ Pow(st, x, 3) = M(x, M(x, x))
=============================================================================
