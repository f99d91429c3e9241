------------------------------- MODULE Cdict -------------------------------
(***************************************************************************)
(* The dictionary of stacked states that every run returns.                *)
(*                                                                         *)
(* A dictionary is a sequence of <<key, value>> pairs in insertion order.  *)
(* Values:  arr(rank, v)  an array; rank 0 is a scalar array               *)
(*          dict(f)       a nested dictionary, indexed and joined like its *)
(*                        parent                                           *)
(*          static(f)     a nested dictionary that never takes part        *)
(*          py(v)         anything else (numbers, text, None, functions)   *)
(***************************************************************************)
EXTENDS Integers, Sequences

Arr(r, v)  == [t |-> "arr", r |-> r, v |-> v]
Dict(f)    == [t |-> "dict", f |-> f]
Static(f)  == [t |-> "static", f |-> f]
Py(v)      == [t |-> "py", v |-> v]

KeysOf(f) == { f[i][1] : i \in 1..Len(f) }
At(f, k)  == LET i == CHOOSE i \in 1..Len(f) : f[i][1] = k IN f[i][2]
MapVals(F(_, _), f) == [i \in 1..Len(f) |-> << f[i][1], F(f[i][1], f[i][2]) >>]

\* ---- indexing: an index picks rows of the leading axis
Row(v, i)      == v[IF i < 0 THEN Len(v) + i + 1 ELSE i + 1]
Pick(v, idx)   == CASE idx.k = "int"    -> Row(v, idx.i)
                    [] idx.k = "slice"  -> SubSeq(v, idx.a + 1, idx.b)
                    [] idx.k = "gather" -> [j \in 1..Len(idx.is) |-> Row(v, idx.is[j])]
                    [] idx.k = "mask"   -> LET sel == SelectSeq([j \in 1..Len(v) |-> j], LAMBDA j : idx.m[j])
                                           IN [j \in 1..Len(sel) |-> v[sel[j]]]
                    [] idx.k = "newaxis" -> <<v>>

RECURSIVE IndexVal(_, _)
IndexVal(x, idx) ==
    CASE x.t = "arr" -> IF x.r = 0 THEN x
                        ELSE Arr(IF idx.k = "int" THEN x.r - 1 ELSE IF idx.k = "newaxis" THEN x.r + 1 ELSE x.r, Pick(x.v, idx))
      [] x.t = "dict" -> Dict([i \in 1..Len(x.f) |-> << x.f[i][1], IndexVal(x.f[i][2], idx) >>])
      [] OTHER -> x

\* ---- joining: rows of the second follow rows of the first
Rows(x) == IF x.r = 0 THEN <<x.v>> ELSE x.v
JoinArr(a, b) == Arr(IF a.r = 0 THEN 1 ELSE a.r, Rows(a) \o Rows(b))
AsArr(x) == IF x.t = "arr" THEN x ELSE Arr(0, x.v)

RECURSIVE JoinVal(_, _, _)
JoinVal(k, a, b) ==
    CASE a.t = "arr" \/ b.t = "arr" -> JoinArr(AsArr(a), AsArr(b))
      [] a.t = "dict" /\ b.t = "dict" ->
            Dict([i \in 1..Len(a.f) |->
                    << a.f[i][1], IF a.f[i][1] \in KeysOf(b.f) THEN JoinVal(a.f[i][1], a.f[i][2], At(b.f, a.f[i][1]))
                                  ELSE a.f[i][2] >>])
      [] k = "time" -> Py(a.v + b.v)
      [] OTHER -> a
Join(d, o) == JoinVal("", d, o)

\* ---- stacking, as done by the run loop and by vectorising maps (arrays only)
RECURSIVE Stack(_, _)
Stack(x, n) == CASE x.t = "arr"  -> Arr(x.r + 1, [i \in 1..n |-> x.v])
                 [] x.t = "dict" -> Dict([i \in 1..Len(x.f) |-> << x.f[i][1], Stack(x.f[i][2], n) >>])
                 [] OTHER -> x

SetKey(d, k, val) ==
    IF k \in KeysOf(d.f)
    THEN Dict([i \in 1..Len(d.f) |-> IF d.f[i][1] = k THEN <<k, val>> ELSE d.f[i]])
    ELSE Dict(Append(d.f, <<k, val>>))

Apply(d, op) ==
    CASE op.op = "index"  -> IndexVal(d, op.idx)
      [] op.op = "add"    -> Join(d, op.other)
      [] op.op = "addNone" -> d
      [] op.op = "copy"   -> d
      [] op.op = "deepcopy" -> d
      [] op.op = "tree"   -> d
      [] op.op = "jit"    -> d
      [] op.op = "stack"  -> Stack(d, op.n)
      [] op.op = "set"    -> SetKey(d, op.key, Arr(0, op.val))   \* on a copy
      [] op.op = "setDeep" -> SetKey(d, op.key, Dict(SetKey(At(d.f, op.key), op.sub, Arr(0, op.val)).f))  \* on a deep copy

\* ---- which operations make sense on a value
RECURSIVE MinLen(_)
MinOf(S) == CHOOSE m \in S : \A n \in S : m <= n
MinLen(x) == CASE x.t = "arr"  -> IF x.r = 0 THEN 99 ELSE Len(x.v)
               [] x.t = "dict" -> MinOf({99} \cup { MinLen(x.f[i][2]) : i \in 1..Len(x.f) })
               [] OTHER -> 99
RECURSIVE MaxLen(_)
MaxOf(S) == CHOOSE m \in S : \A n \in S : m >= n
MaxLen(x) == CASE x.t = "arr"  -> IF x.r = 0 THEN 0 ELSE Len(x.v)
               [] x.t = "dict" -> MaxOf({0} \cup { MaxLen(x.f[i][2]) : i \in 1..Len(x.f) })
               [] OTHER -> 0
RECURSIVE ArraysOnly(_)
ArraysOnly(x) == CASE x.t = "arr" -> TRUE
                   [] x.t = "dict" -> \A i \in 1..Len(x.f) : ArraysOnly(x.f[i][2])
                   [] OTHER -> FALSE
IndexOk(d, idx) ==
    LET m == MinLen(d) IN
    CASE idx.k = "int" -> idx.i < m /\ -idx.i <= m
      [] idx.k = "slice" -> idx.b <= m
      [] idx.k = "gather" -> \A j \in 1..Len(idx.is) : idx.is[j] < m
      [] idx.k = "mask" -> MaxLen(d) = 0 \/ (m = Len(idx.m) /\ MaxLen(d) = m)
      [] OTHER -> TRUE
\* shapes of the trailing axes have to agree to be joined
RECURSIVE TailShape(_, _)
TailShape(v, r) == IF r = 0 THEN <<>> ELSE <<Len(v)>> \o (IF Len(v) = 0 THEN <<>> ELSE TailShape(v[1], r - 1))
RECURSIVE JoinOk(_, _, _)
JoinOk(k, a, b) ==
    CASE a.t = "arr" \/ b.t = "arr" ->
            /\ a.t \in {"arr"} \/ (a.t = "py" /\ a.v \in Int)
            /\ b.t \in {"arr"} \/ (b.t = "py" /\ b.v \in Int)
            /\ LET x == AsArr(a)  y == AsArr(b)
                   rx == IF x.r = 0 THEN 1 ELSE x.r
                   ry == IF y.r = 0 THEN 1 ELSE y.r
               IN rx = ry /\ Len(Rows(x)) > 0 /\ Len(Rows(y)) > 0
                  /\ TailShape(Rows(x)[1], rx - 1) = TailShape(Rows(y)[1], ry - 1)
      [] a.t = "dict" /\ b.t = "dict" ->
            \A i \in 1..Len(a.f) : a.f[i][1] \in KeysOf(b.f) => JoinOk(a.f[i][1], a.f[i][2], At(b.f, a.f[i][1]))
      [] k = "time" -> a.t = "py" /\ b.t = "py"
      [] OTHER -> TRUE
=============================================================================
