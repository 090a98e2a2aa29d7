------------------------------ MODULE HeapDesign ------------------------------
(* The containers as a design of their own (C17, C18): every sequence of        *)
(* operations (to a depth) on objects made of the same Heap operators that       *)
(* validate the real library.  `kin` are the pairs of objects that were made to   *)
(* share memory, `pure` the objects with memory of their own by construction.     *)
EXTENDS Heap
LOCAL INSTANCE TLC
CONSTANT Depth
VARIABLES heap, dic, obj, kin, did, left
vars == <<heap, dic, obj, kin, did, left>>
St == [heap |-> heap, dic |-> dic, obj |-> obj]
Three == {"o", "w", "v"}
Cls == "SpectrumLin"
Start == LET s == SetNew(SetNew(NewObj([heap |-> <<>>, dic |-> <<>>, obj |-> [x \in {} |-> 0]], "o", Cls), "o", "k", <<1, 2, 3>>, <<3>>), "o", "pk", <<5, 6, 7>>, <<3>>) IN s
Init == heap = Start.heap /\ dic = Start.dic /\ obj = Start.obj /\ kin = {} /\ did = <<"start", "o", "o">> /\ left = Depth
Move(st) == heap' = st.heap /\ dic' = st.dic /\ obj' = st.obj /\ left' = left - 1
Without(K, h) == {p \in K : h \notin p}
KinOf(K, h) == {g \in Three : g # h /\ {g, h} \in K}
(* o becomes something that shares with h, and with what h shares with               *)
Joined(K, h, o) == LET rest == Without(K, o) IN rest \union {{o, g} : g \in ({h} \union KinOf(K, h)) \ {o}}
Live == DOMAIN obj
Whole(h) == HasAll(St, h)
Ix == { [k |-> "slice", v |-> <<1, None, None>>], [k |-> "slice", v |-> <<None, None, -1>>], [k |-> "list", v |-> <<0, -1>>], [k |-> "mask", v |-> <<1, 0, 1>>] }
Fits(h, ix) == \A c \in Cols(St, h) : CASE ix.k = "mask" -> Rows(Col(St, h, c)) = 3 [] ix.k = "list" -> Rows(Col(St, h, c)) > 0 [] OTHER -> TRUE
CopyOf(h, o) == o # h /\ Move(Copy(St, h, o)) /\ kin' = Joined(kin, h, o) /\ did' = <<"copy", h, o>>
DeepOf(h, o) == Move(Deep(St, h, o)) /\ kin' = Without(kin, o) /\ did' = <<"deep", h, o>>
SliceOf(h, o, ix) == Fits(h, ix) /\ Move(Slice(St, h, o, ix)) /\ kin' = (IF ix.k = "slice" THEN (IF o = h THEN kin ELSE Joined(kin, h, o)) ELSE Without(kin, o)) /\ did' = <<"slice", h, o>>
PutRows(h, ix) == Fits(h, ix) /\ Move(SetRows(St, h, ix, 9)) /\ did' = <<"put", h, h>> /\ UNCHANGED kin
Pop(h, c) == c \in Cols(St, h) /\ Move(Unbind(St, h, c)) /\ did' = <<"pop", h, c>> /\ UNCHANGED kin
Times(h) == Cols(St, h) # {} /\ Move(Rescale(St, h, 2)) /\ did' = <<"rescale", h, h>> /\ UNCHANGED kin
Give(h, g, c) == h # g /\ c \in Cols(St, g) /\ (\A x \in Cols(St, h) : Rows(Col(St, h, x)) = Rows(Col(St, g, c))) /\ Move(Bind(St, h, c, Col(St, g, c))) /\ kin' = kin \union ({{x, y} : x \in ({h} \union KinOf(kin, h)), y \in ({g} \union KinOf(kin, g))} \ {{x} : x \in Three}) /\ did' = <<"give", h, c>>
PadOf(h) == Whole(h) /\ Len(Get(St, h, "k")) > 0 /\ Move(Pad(St, h, <<0, 99>>, "edge", 0, [x \in {} |-> 0])) /\ did' = <<"pad", h, h>> /\ UNCHANGED kin
Next == left > 0 /\ \E h \in Live :
  \/ \E o \in Three : CopyOf(h, o) \/ DeepOf(h, o) \/ (\E ix \in Ix : SliceOf(h, o, ix))
  \/ \E ix \in Ix : PutRows(h, ix)
  \/ \E c \in Cols(St, h) : Pop(h, c)
  \/ Times(h) \/ PadOf(h)
  \/ \E g \in Live : \E c \in {"pk"} : Give(h, g, c)
Spec == Init /\ [][Next]_vars
View == <<heap, dic, obj, kin, left>>

(* faulty designs: a deep copy that binds the same arrays; rows taken by number that   *)
(* stay views                                                                          *)
SharedDeep(st, h, o) == FoldLeft(LAMBDA s, c : Bind(s, o, c, Col(st, h, c)), NewObj(st, o, st.obj[h].cls), ColSeq(st, h))
ViewSlice(st, h, o, ix) == LET st1 == NewObj(st, o, st.obj[h].cls) IN FoldLeft(LAMBDA s, c : LET v == Col(st, h, c) IN Bind(s, o, c, SelView(v, SelRows(Rows(v), ix))), st1, ColSeq(st, h))

(* ---- properties ----------------------------------------------------------------- *)
Used(h) == {Col(St, h, c).a : c \in Cols(St, h)}
WellFormed == \A h \in Live : \A c \in Cols(St, h) : LET v == Col(St, h, c) IN Len(v.ix) = Prod(v.s) /\ \A j \in 1 .. Len(v.ix) : v.ix[j] \in 1 .. Len(heap[v.a])
(* what a copy() has is what the other has; everything else that shares memory was made to  *)
OnlyKinShare == \A h, g \in Live : h # g /\ {h, g} \notin kin => Used(h) \intersect Used(g) = {} /\ obj[h].d # obj[g].d
(* values change only for the object told to change and its kin; columns come and go only    *)
(* for it and the copies that are the same dictionary                                         *)
View_(h) == [c \in Cols(St, h) |-> <<Col(St, h, c).s, Get(St, h, c)>>]
OthersStay == [][\A h \in DOMAIN obj : (h # did'[2] /\ {h, did'[2]} \notin kin /\ (did'[1] \notin {"copy", "deep", "slice"} \/ h # did'[3])) => View_(h)' = View_(h)]_vars
ShapesStay == [][\A h \in DOMAIN obj : (did'[1] \in {"put", "rescale"}) => Cols(St, h)' = Cols(St, h) /\ \A c \in Cols(St, h) : Col(St, h, c)' = Col(St, h, c)]_vars
(* a deep copy equals its original at the moment it is made                                     *)
DeepEqual == [][\A h \in DOMAIN obj : \A o \in Three : did' = <<"deep", h, o>> => View_(o)' = View_(h)]_vars
=============================================================================
