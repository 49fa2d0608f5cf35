------------------------------ MODULE ScalarInt ------------------------------
(* Scalar integer utilities: each operation determines its result words from its operand words exactly. *)
EXTENDS LaneTypes
B1(c, t, k) == SubSeq(c, (k - 1) * Size(t) + 1, k * Size(t))          \* k-th lane-sized word
B8(c, t, n) == SubSeq(c, n * Size(t) + 1, n * Size(t) + 8)            \* 8-byte word after n lane-sized ones
N8(x) == W(x, 8)
Sg(t) == Signed(t)
\* q = floor(n / d) and r = n mod d
IsDiv(n, d, q, r) == /\ CmpU(r, d) = -1
                     /\ LET p == MulU(q, d) z == ZExt(r, Len(p)) IN AddW(p, z) = ZExt(n, Len(p))
CeilLog(x) == IF HighBit(x) = LowBit(x) THEN HighBit(x) ELSE HighBit(x) + 1
OkInt(op, t, c) ==
  LET x == B1(c, t, 1)  y == B1(c, t, 2)  z == B1(c, t, 3) n == Size(t) IN
  CASE op = "Div" -> IsDiv(y, x, z, B1(c, t, 4)) /\ B1(c, t, 5) = x
    [] op = "Mul128" -> z \o B1(c, t, 4) = MulX(Sg(t), x, y)
    [] op = "Pop" -> B8(c, t, 1) = N8(Pop(x))
    [] op = "Ctz" -> B8(c, t, 1) = N8(LowBit(x))
    [] op = "Clz" -> B8(c, t, 1) = N8((8 * n - 1) - HighBit(x))
    [] op = "Floor" -> B8(c, t, 1) = N8(HighBit(x))
    [] op = "Ceil" -> B8(c, t, 1) = N8(CeilLog(x))
    [] op = "Sign" -> B8(c, t, 1) = N8(Bit(x, 8 * n - 1))
    [] op = "Shr" -> y = Shr(Sg(t), x, U(Trunc(B8(c, t, 2), 2)))
    [] op = "AddW" -> y = AddW(x, Trunc(B8(c, t, 2), n))
    [] op = "Abs" -> y = (IF Sg(t) THEN AbsW(x) ELSE x)
    [] op = "DivCeil" -> (IF IsZero(x) THEN IsZero(z)
                          ELSE LET p == MulU(z, y) xx == ZExt(x, 2 * n) IN /\ CmpU(xx, p) # 1 /\ CmpU(SubW(p, xx), ZExt(y, 2 * n)) = -1)
    \* (the quotient is recorded as a witness)
    [] op = "RoundDown" -> /\ CmpU(z, x) # 1 /\ CmpU(SubW(x, z), y) = -1 /\ MulU(B1(c, t, 4), y) = ZExt(z, 2 * n)
    [] op = "RoundUp" -> /\ CmpU(z, x) # -1 /\ CmpU(SubW(z, x), y) = -1 /\ MulU(B1(c, t, 4), y) = ZExt(z, 2 * n)
    [] op = "Lim" -> x = MinOf(Sg(t), n) /\ y = MaxOf(Sg(t), n)
    [] OTHER -> FALSE
=============================================================================
