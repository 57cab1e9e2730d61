--------------------------------- MODULE LutMC ---------------------------------
(***************************************************************************)
(* Histories of table operations: decimation (both ways), saving, loading,   *)
(* copying and adding, starting from two tables of one grid and one of       *)
(* another. `mem` maps handles to views, `tt` is what the arrays hold: for   *)
(* each handle and station the base node whose traveltime each node stores.  *)
(***************************************************************************)
EXTENDS Lut, TLC
CONSTANTS MaxN, MaxDf, MaxOps, Handles
VARIABLES mem, arr, ops, file, last, n0
vars == <<mem, arr, ops, file, last, n0>>

N3 == {<<a, b, x>> : a \in 1..MaxN, b \in 1..2, x \in {1, 2}}
Nodes(n) == {Unflat(f, n) : f \in 0..(Count(n) - 1)}
Base(b, n, st) == [base |-> b, off |-> <<0, 0, 0>>, step |-> <<1, 1, 1>>, n |-> n, st |-> st]
Whole(w) == [i \in Nodes(w.n) |-> i]
Free == Handles \ DOMAIN mem
Init == \E n \in N3 :
  /\ mem = (1 :> Base(1, n, <<<<"A", 1>>, <<"B", 1>>>>)) @@ (2 :> Base(1, n, <<<<"B", 2>>, <<"C", 2>>>>))
             @@ (3 :> Base(2, n, <<<<"A", 3>>>>))
  /\ arr = [h \in {1, 2, 3} |-> Whole(mem[h])]
  /\ n0 = n /\ ops = 0 /\ file = <<>> /\ last = "init"
\* slices off : step of an array
Slice(a, n, df) ==
  [i \in Nodes(DecN(n, df)) |-> a[[d \in Dim |-> DecOff(n, df)[d] + df[d] * i[d]]]]
Dec(h, df, h2) ==
  /\ mem' = (h2 :> Decimated(mem[h], df)) @@ mem
  /\ arr' = (h2 :> Slice(arr[h], mem[h].n, df)) @@ arr
  /\ UNCHANGED file /\ last' = "dec"
Save(h) == file' = <<mem[h], arr[h]>> /\ UNCHANGED <<mem, arr>> /\ last' = "save"
Load(h2) == /\ file # <<>> /\ mem' = (h2 :> file[1]) @@ mem /\ arr' = (h2 :> file[2]) @@ arr
            /\ UNCHANGED file /\ last' = "load"
Add(a, b, h2) ==
  /\ IF SameGrid(mem[a], mem[b])
     THEN /\ mem' = (h2 :> Combined(mem[a], mem[b])) @@ mem /\ arr' = (h2 :> arr[a]) @@ arr
          /\ last' = "add"
     ELSE UNCHANGED <<mem, arr>> /\ last' = "refused"
  /\ UNCHANGED file
Next == /\ ops < MaxOps /\ ops' = ops + 1 /\ n0' = n0
        /\ \/ \E h \in DOMAIN mem, df \in {<<a, b, x>> : a \in 1..MaxDf, b \in 1..2, x \in {1}} :
                \E h2 \in {h} \cup (IF Free = {} THEN {} ELSE {CHOOSE x \in Free : TRUE}) : Dec(h, df, h2)
           \/ \E h \in DOMAIN mem : Save(h)
           \/ Free # {} /\ Load(CHOOSE x \in Free : TRUE)
           \/ Free # {} /\ \E a, b \in DOMAIN mem : Add(a, b, CHOOSE x \in Free : TRUE)
Spec == Init /\ [][Next]_vars

\* every stored traveltime is the traveltime to the place its node names
PlaceLaw == \A h \in DOMAIN mem : DOMAIN arr[h] = Nodes(mem[h].n)
              /\ \A i \in Nodes(mem[h].n) : arr[h][i] = Place(mem[h], i)
InGrid == \A h \in DOMAIN mem : \A i \in Nodes(mem[h].n) : Inside(Place(mem[h], i), n0)
IndexLaw == \A h \in DOMAIN mem : \A f \in 0..(Count(mem[h].n) - 1) :
              Flat(Unflat(f, mem[h].n), mem[h].n) = f /\ Inside(Unflat(f, mem[h].n), mem[h].n)
NoDup == \A h \in DOMAIN mem : Cardinality(Stations(mem[h])) = Len(mem[h].st)
\* out-of-place operations leave the others alone
Frame == [][\A h \in DOMAIN mem : mem'[h] # mem[h] => last' = "dec"]_vars
=============================================================================
