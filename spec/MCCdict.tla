------------------------------ MODULE MCCdict ------------------------------
EXTENDS Cdict, TLC, Json, FiniteSets
CONSTANT Depth

D1 == Dict(<< <<"value", Arr(2, << <<1,2>>, <<3,4>>, <<5,6>> >>)>>,
              <<"alpha", Arr(1, <<7,8,9>>)>>,
              <<"temperature", Arr(0, 10)>>,
              <<"time", Py(3)>>,
              <<"note", Py(0)>>,
              <<"summary", Static(<< <<"stepsize", Arr(1, <<1,2,3>>)>> >>)>>,
              <<"inner", Dict(<< <<"m", Arr(1, <<11,12,13>>)>>, <<"label", Py(5)>>, <<"time", Py(4)>> >>)>> >>)
D2 == Dict(<< <<"alpha", Arr(1, <<20,21>>)>>,
              <<"value", Arr(2, << <<22,23>>, <<24,25>> >>)>>,
              <<"time", Py(6)>>,
              <<"summary", Static(<< <<"stepsize", Arr(1, <<4>>)>> >>)>>,
              <<"temperature", Py(2)>>,
              <<"extra", Arr(1, <<26,27>>)>>,
              <<"inner", Dict(<< <<"m", Arr(1, <<28>>)>>, <<"time", Py(1)>> >>)>> >>)
D3 == Dict(<< <<"value", Arr(1, <<30,31,32>>)>>, <<"inner", Dict(<< <<"m", Arr(2, << <<1>>, <<2>>, <<3>> >>)>>,
                 <<"deep", Dict(<< <<"z", Arr(1, <<33,34,35>>)>> >>)>> >>)>> >>)
D4 == Dict(<< <<"value", Arr(0, 40)>>, <<"time", Py(2)>>, <<"inner", Dict(<< <<"m", Arr(0, 41)>>,
                 <<"deep", Dict(<< <<"z", Arr(0, 42)>> >>)>> >>)>> >>)
D5 == Dict(<< <<"value", Arr(3, << << <<1,2>>, <<3,4>> >>, << <<5,6>>, <<7,8>> >> >>)>>, <<"w", Arr(2, << <<1>>, <<2>> >>)>> >>)
D6 == Dict(<<>>)
Catalogue == <<D1, D2, D3, D4, D5, D6>>

Idxs == {[k |-> "int", i |-> i] : i \in {0, 1, 2, -1, -2}}
        \cup {x \in [k : {"slice"}, a : {0, 1}, b : {1, 2, 3}] : x.a < x.b}
        \cup {[k |-> "gather", is |-> s] : s \in {<<1, 0>>, <<0, 0, 1>>, <<2, 1, 1, 0>>}}
        \cup {[k |-> "mask", m |-> m] : m \in {<<TRUE, FALSE, TRUE>>, <<FALSE, TRUE>>}}
        \cup {[k |-> "newaxis"]}
Ops(d) == {[op |-> "index", idx |-> idx] : idx \in {x \in Idxs : IndexOk(d, x)}}
          \cup {[op |-> "add", other |-> Catalogue[j]] : j \in {j \in 1..Len(Catalogue) : JoinOk("", d, Catalogue[j])}}
          \cup {[op |-> o] : o \in {"copy", "deepcopy", "tree", "addNone"}}
          \cup (IF ArraysOnly(d) THEN {[op |-> "jit"], [op |-> "stack", n |-> 2]} ELSE {})
          \cup {[op |-> "set", key |-> k, val |-> 77] : k \in {"value", "fresh"}}
          \cup (IF "inner" \in KeysOf(d.f) THEN {[op |-> "setDeep", key |-> "inner", sub |-> "m", val |-> 78]} ELSE {})

VARIABLES base, d, hist
Init == base \in 1..Len(Catalogue) /\ d = Catalogue[base] /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E op \in Ops(d) : d' = Apply(d, op) /\ hist' = Append(hist, op)
        /\ UNCHANGED base

\* ---- laws
JoinIsRows == \A j \in 1..Len(Catalogue) : LET o == Catalogue[j] IN
    JoinOk("", d, o) =>
      LET r == Join(d, o) IN
      \A i \in 1..Len(d.f) : LET k == d.f[i][1]  x == d.f[i][2] IN
         (x.t = "arr" /\ k \in KeysOf(o.f)) =>
             /\ Len(r.f[i][2].v) = Len(Rows(x)) + Len(Rows(AsArr(At(o.f, k))))
             /\ SubSeq(r.f[i][2].v, 1, Len(Rows(x))) = Rows(x)
KeysKept == \A op \in Ops(d) : LET r == Apply(d, op) IN
    /\ r.t = "dict"
    /\ KeysOf(d.f) \subseteq KeysOf(r.f)
    /\ op.op # "set" => KeysOf(r.f) = KeysOf(d.f)
    /\ \A i \in 1..Len(d.f) : d.f[i][2].t = "static" => r.f[i] = d.f[i]
SliceThenIndex == \A i \in 0..1 :
    LET sl == [k |-> "slice", a |-> 1, b |-> 3]  one == [k |-> "int", i |-> i + 1]  a == [k |-> "int", i |-> i]
    IN IndexOk(d, sl) /\ IndexOk(d, one) => IndexVal(IndexVal(d, sl), a) = IndexVal(d, one)
Laws == JoinIsRows /\ KeysKept /\ SliceThenIndex
Emit == hist # <<>> => PrintT("CASE " \o ToJson([base |-> Catalogue[base], ops |-> hist]))
=============================================================================
