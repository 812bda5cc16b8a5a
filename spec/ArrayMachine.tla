----------------------------- MODULE ArrayMachine -----------------------------
(* A pool of interval arrays, and what every operation does to it.  Arrays are  *)
(* values: an operation changes the slot it names and no other, and one that    *)
(* raises changes nothing.                                                      *)
(* operation: op, t (slot it is applied to), d (slot that takes a new array),    *)
(*            key, val (operand: iv, num, narr, or [k "slot", n]), sh            *)
EXTENDS Arrays

Operand(pool, o) == IF o.val.k = "slot" THEN pool[o.val.n] ELSE o.val
InPlace == {"iadd", "isub", "imul", "idiv"}
Binary == {"add", "sub", "mul"} \cup InPlace
Base(op) == CASE op \in {"add", "iadd"} -> "add" [] op \in {"sub", "isub"} -> "sub" [] op \in {"mul", "imul"} -> "mul" [] op = "idiv" -> "div"

\* "ok", "err" (must raise) or "open" (not described here)
Verdict(pool, o) ==
    LET x == pool[o.t] y == Operand(pool, o) IN
    CASE o.op = "get" -> IF KeyOk(o.key, x.sh) THEN "ok" ELSE "err"
      [] o.op = "set" -> IF ~KeyOk(o.key, x.sh) THEN "err"
                         ELSE LET out == OutShape(o.key, x.sh) s == ShapeOf(y) IN
                              IF Len(s) > Len(out) THEN "open" ELSE IF ~Compatible(s, out) \/ Broadcast(s, out) # out THEN "err" ELSE "ok"
      [] o.op = "del" -> IF DelOk(x, o.key) THEN "ok" ELSE "err"
      [] o.op \in Binary -> IF ~Compatible(x.sh, ShapeOf(y)) THEN "err"
                            ELSE LET out == Broadcast(x.sh, ShapeOf(y)) IN
                                 IF Size(out) > 0 /\ o.op = "idiv" /\ \E k \in 1..Size(out) : HasZero(BAt(y, k, out)) THEN "err"
                                 ELSE IF o.op \in InPlace /\ out # x.sh THEN "open" ELSE "ok"
      [] o.op = "reshape" -> IF Size(o.sh) = Size(x.sh) THEN "ok" ELSE "err"
      [] OTHER -> "ok"

\* the exact new value (and the slot it goes to); arithmetic is exact here
ArithV(op, x, y) == LET out == Broadcast(x.sh, ShapeOf(y)) IN
                    Arr(out, [k \in 1..Size(out) |-> Exact(op, BAt(x, k, out), BAt(y, k, out), 0)])
NewValue(pool, o) ==
    LET x == pool[o.t] y == Operand(pool, o) IN
    CASE o.op = "get" -> GetV(x, o.key) [] o.op = "set" -> SetV(x, o.key, y) [] o.op = "del" -> DelV(x, o.key)
      [] o.op \in Binary -> ArithV(Base(o.op), x, y)
      [] o.op = "T" -> TransV(x) [] o.op = "reshape" -> ReshapeV(x, o.sh) [] o.op = "rev" -> ReverseV(x)
      [] o.op = "neg" -> Arr(x.sh, [k \in DOMAIN x.v |-> NegI(x.v[k])])
      [] o.op \in {"copy", "deepcopy", "list"} -> x
      [] o.op = "new" -> o.val
Target(o) == IF o.op \in InPlace \cup {"set", "del"} THEN o.t ELSE o.d
After(pool, o) ==
    IF Verdict(pool, o) # "ok" THEN pool
    ELSE LET r == NewValue(pool, o) IN IF r.k = "iv" THEN pool ELSE [pool EXCEPT ![Target(o)] = r]
=============================================================================
