-------------------------------- MODULE Heap --------------------------------
(* Objects and their columns (properties C17, C18, C19).  Arrays live on a    *)
(* heap; a column is a view [a, ix, s]: array, flat element numbers, shape.   *)
(* An object is [cls, d], d a dictionary of views: copy() shares it.          *)
EXTENDS Terms

Iota(n) == Tup([j \in 1 .. n |-> j])
Prod(s) == FoldLeft(LAMBDA x, y : x * y, 1, s)
Contents(st, v) == LET h == st.heap[v.a] IN Tup([j \in 1 .. Len(v.ix) |-> h[v.ix[j]]])
Dict(st, h) == st.dic[st.obj[h].d]
Col(st, h, c) == Dict(st, h)[c]
Cols(st, h) == DOMAIN Dict(st, h)
Get(st, h, c) == Contents(st, Col(st, h, c))
Rows(v) == v.s[1]
Width(v) == IF Len(v.s) = 1 THEN 1 ELSE v.s[2]

WithArr(st, vals) == [st EXCEPT !.heap = Append(@, vals)]
Fresh(st, n, s) == [a |-> Len(st.heap) + 1, ix |-> Iota(n), s |-> s]
(* bind a new array to a column *)
SetNew(st, h, c, vals, s) ==
  LET v == Fresh(st, Len(vals), s)
      d == st.obj[h].d
  IN [WithArr(st, vals) EXCEPT !.dic[d] = [x \in DOMAIN @ \union {c} |-> IF x = c THEN v ELSE @[x]]]
Bind(st, h, c, v) == [st EXCEPT !.dic[st.obj[h].d] = [x \in DOMAIN @ \union {c} |-> IF x = c THEN v ELSE @[x]]]
Unbind(st, h, c) == [st EXCEPT !.dic[st.obj[h].d] = [x \in DOMAIN @ \ {c} |-> @[x]]]
NewObj(st, h, cls) ==
  [st EXCEPT !.dic = Append(@, [x \in {} |-> 0]),
             !.obj = [y \in DOMAIN @ \union {h} |-> IF y = h THEN [cls |-> cls, d |-> Len(st.dic) + 1] ELSE @[y]]]
(* in-place write through a view *)
Write(st, v, vals) ==
  IF v.ix = Iota(Len(st.heap[v.a])) THEN [st EXCEPT !.heap[v.a] = vals]
  ELSE [st EXCEPT !.heap[v.a] = LET n == Len(v.ix)
                                    at(i) == {j \in 1 .. n : v.ix[j] = i}
                                    old == @
                                IN Tup([i \in 1 .. Len(old) |-> IF at(i) = {} THEN old[i] ELSE vals[CHOOSE j \in at(i) : TRUE]])]

(* ---- selection of rows -------------------------------------------------------- *)

Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
PySlice(n, s) ==     \* row numbers (from 1) selected by start:stop:step of n rows
  LET step == IF s[3] = None THEN 1 ELSE s[3]
      pos(x) == IF x < 0 THEN x + n ELSE x
      start == IF step > 0 THEN (IF s[1] = None THEN 0 ELSE Clamp(pos(s[1]), 0, n)) ELSE (IF s[1] = None THEN n - 1 ELSE Clamp(pos(s[1]), -1, n - 1))
      stop == IF step > 0 THEN (IF s[2] = None THEN n ELSE Clamp(pos(s[2]), 0, n)) ELSE (IF s[2] = None THEN -1 ELSE Clamp(pos(s[2]), -1, n - 1))
      cnt == IF step > 0 THEN (IF stop > start THEN (stop - start + step - 1) \div step ELSE 0)
             ELSE (IF start > stop THEN (start - stop - step - 1) \div (-step) ELSE 0)
  IN Tup([i \in 1 .. cnt |-> start + (i - 1) * step + 1])
SelRows(n, ix) ==
  CASE ix.k = "slice" -> PySlice(n, ix.v)
    [] ix.k = "int"   -> << IF ix.v < 0 THEN ix.v + n + 1 ELSE ix.v + 1 >>      \* one row, to assign to
    [] ix.k = "list"  -> Tup([i \in 1 .. Len(ix.v) |-> IF ix.v[i] < 0 THEN ix.v[i] + n + 1 ELSE ix.v[i] + 1])
    [] ix.k = "mask"  -> SelectSeq(Iota(n), LAMBDA i : ix.v[i] = 1)
SelIx(v, rows) == LET w == Width(v) IN Tup([j \in 1 .. (Len(rows) * w) |-> v.ix[(rows[((j - 1) \div w) + 1] - 1) * w + ((j - 1) % w) + 1]])
SelShape(v, rows) == IF Len(v.s) = 1 THEN <<Len(rows)>> ELSE <<Len(rows), v.s[2]>>
SelView(v, rows) == [a |-> v.a, ix |-> SelIx(v, rows), s |-> SelShape(v, rows)]

ColSeq(st, h) ==    \* the columns of an object in a fixed order
  LET fs == Fields(st.obj[h].cls)  S == Cols(st, h) IN
  SelectSeq(fs, LAMBDA c : c \in S) \o SetSeq(S \ {fs[i] : i \in 1 .. Len(fs)})

Slice(st, h, o, ix) ==
  LET st1 == NewObj(st, o, st.obj[h].cls)
      put(s, c) == LET v == Col(st, h, c)  rows == SelRows(Rows(v), ix)
                   IN IF ix.k = "slice" THEN Bind(s, o, c, SelView(v, rows))
                      ELSE LET w == SelView(v, rows) IN SetNew(s, o, c, Contents(st, w), w.s)
  IN FoldLeft(put, st1, ColSeq(st, h))
Deep(st, h, o) ==
  LET put(s, c) == SetNew(s, o, c, Get(st, h, c), Col(st, h, c).s)
  IN FoldLeft(put, NewObj(st, o, st.obj[h].cls), ColSeq(st, h))
Copy(st, h, o) == [st EXCEPT !.obj = [y \in DOMAIN @ \union {o} |-> IF y = o THEN @[h] ELSE @[y]]]
SetRows(st, h, ix, x) ==
  LET put(s, c) == LET v == Col(s, h, c)  w == SelView(v, SelRows(Rows(v), ix)) IN Write(s, w, Tup([j \in 1 .. Len(w.ix) |-> x]))
  IN FoldLeft(put, st, ColSeq(st, h))
(* the fields up to the first one that is missing                                    *)
Before(st, h) ==
  LET fs == Fields(st.obj[h].cls)  gone == {i \in 1 .. Len(fs) : fs[i] \notin Cols(st, h)}
  IN IF gone = {} THEN fs ELSE SubSeq(fs, 1, (CHOOSE i \in gone : \A j \in gone : i <= j) - 1)
HasAll(st, h) == LET fs == Fields(st.obj[h].cls) IN \A i \in 1 .. Len(fs) : fs[i] \in Cols(st, h)
NanToZero(st, h) ==
  LET put(s, c) == LET v == Col(s, h, c)  x == Contents(s, v) IN Write(s, v, Tup([j \in 1 .. Len(x) |-> IF IsNaN(x[j]) THEN Flt(0) ELSE x[j]]))
  IN FoldLeft(put, st, Before(st, h))
Rescale(st, h, Dg) ==
  LET put(s, c) == LET v == Col(s, h, c) IN Write(s, v, VScale(IPow(Flt(Dg), 2 * Order(st.obj[h].cls, c)), Contents(s, v)))
  IN FoldLeft(put, st, ColSeq(st, h))
Zeros(st, h, k) ==    \* set_terms: a copy of the wavenumbers, zeroed columns
  LET cls == st.obj[h].cls  n == Len(k)
      put(s, c) == IF c = "k" THEN SetNew(s, h, c, k, <<n>>)
                   ELSE LET w == NComp(cls, c) IN SetNew(s, h, c, Tup([j \in 1 .. (n * Max2(1, w)) |-> Flt(0)]), IF w = 0 THEN <<n>> ELSE <<n, w>>)
  IN FoldLeft(put, st, Fields(cls))
(* pad_k: rows for the wavenumbers outside the present range, filled with cv (edge: *)
(* the end rows); k itself and the columns in kv with the values given.              *)
Pad(st, h, k, mode, cv, kv) ==
  LET old == Get(st, h, "k")
      lo == SelectSeq(Iota(Len(k)), LAMBDA i : k[i] < old[1])
      hi == SelectSeq(Iota(Len(k)), LAMBDA i : k[i] > old[Len(old)])
      n == Len(lo) + Len(old) + Len(hi)
      put(s, c) ==
        LET v == Col(s, h, c)  x == Contents(s, v)  w == Width(v)
            given == IF c = "k" THEN k ELSE IF c \in DOMAIN kv THEN kv[c] ELSE <<>>
            side(is, row) == Tup([j \in 1 .. (Len(is) * w) |->
                              IF given # <<>> THEN given[is[((j - 1) \div w) + 1]]
                              ELSE IF mode = "edge" THEN x[(row - 1) * w + ((j - 1) % w) + 1] ELSE cv])
        IN SetNew(s, h, c, side(lo, 1) \o x \o side(hi, Len(old)), IF Len(v.s) = 1 THEN <<n>> ELSE <<n, w>>)
  IN FoldLeft(put, st, Fields(st.obj[h].cls))
=============================================================================
