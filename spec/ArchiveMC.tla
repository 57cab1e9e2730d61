------------------------------- MODULE ArchiveMC -------------------------------
(***************************************************************************)
(* Reading: visit the file of every day the padded window overlaps, cut the  *)
(* records to the window, join what belongs together channel by channel in   *)
(* time order, keep that as the raw data, then cut the copy to the window    *)
(* without its pads and drop what is empty.                                  *)
(***************************************************************************)
EXTENDS Archive, TLC
CONSTANTS Per, NDays, MaxRecs, MaxLen, Pads
VARIABLES recs, a, b, pre, post, day, got, todo, cur, raw, wf, st
vars == <<recs, a, b, pre, post, day, got, todo, cur, raw, wf, st>>
All == 0..(Per * NDays - 1)
\* a record starts in its file's day or runs past its end
Rec == {r \in [k : All, n : 1..MaxLen, ver : 1..2, day : 0..(NDays - 1)] :
          r.day = r.k \div Per /\ r.k + r.n <= Per * NDays}
RECURSIVE Few(_)
Few(m) == IF m = 0 THEN {{}} ELSE LET F == Few(m - 1) IN F \cup {R \cup {r} : R \in F, r \in Rec}
lo == a - pre
hi == b + post
Nil == [k |-> 0, n |-> 0, ver |-> 0, day |-> 0]
Init == /\ recs \in Few(MaxRecs)
        /\ pre \in Pads /\ post \in Pads
        /\ a \in All /\ b \in All /\ a < b /\ a - pre >= 0 /\ b + post <= Per * NDays - 1
        /\ day = (a - pre) \div Per /\ got = {} /\ todo = {} /\ cur = Nil
        /\ raw = {} /\ wf = {} /\ st = "files"
Cut(r, x, y) == LET f == IF r.k < x THEN x ELSE r.k
                    l == IF r.k + r.n - 1 > y THEN y ELSE r.k + r.n - 1
                IN [k |-> f, n |-> l - f + 1, ver |-> r.ver]
CutSet(R, x, y) == {Cut(r, x, y) : r \in {q \in R : InRange(q, x, y) # {}}}
Visit == /\ st = "files" /\ day * Per <= hi
         /\ got' = got \cup CutSet({r \in recs : r.day = day}, lo, hi)
         /\ day' = day + 1 /\ UNCHANGED <<recs, a, b, pre, post, todo, cur, raw, wf, st>>
Start == /\ st = "files" /\ day * Per > hi
         /\ IF got = {} THEN st' = "nodata" /\ UNCHANGED <<todo, cur>>
            ELSE LET x == CHOOSE r \in got : \A q \in got :
                            r.k < q.k \/ (r.k = q.k /\ r.n <= q.n)
                 IN st' = "join" /\ cur' = x /\ todo' = got \ {x}
         /\ UNCHANGED <<recs, a, b, pre, post, day, got, raw, wf>>
Union2(r, q) == LET e == IF r.k + r.n > q.k + q.n THEN r.k + r.n ELSE q.k + q.n
                IN [k |-> r.k, n |-> e - r.k, ver |-> r.ver]
Join == /\ st = "join" /\ todo # {}
        /\ LET x == CHOOSE r \in todo : \A q \in todo :
                      r.k < q.k \/ (r.k = q.k /\ r.n <= q.n)
           IN /\ todo' = todo \ {x}
              /\ IF x.ver = cur.ver /\ Touch(cur, x)
                 THEN cur' = Union2(cur, x) /\ raw' = raw
                 ELSE cur' = x /\ raw' = raw \cup {cur}
        /\ UNCHANGED <<recs, a, b, pre, post, day, got, wf, st>>
Trim == /\ st = "join" /\ todo = {}
        /\ raw' = raw \cup {cur}
        /\ wf' = CutSet(raw \cup {cur}, a, b)
        /\ st' = IF wf' = {} THEN "nodata" ELSE "done"
        /\ UNCHANGED <<recs, a, b, pre, post, day, got, todo, cur>>
Next == Visit \/ Start \/ Join \/ Trim
Have(R) == UNION {{<<t, r.ver>> : t \in Slots(r)} : r \in R}
Want(R, x, y) == {p \in Have(R) : p[1] \in x..y}
Near == {r \in recs : r.day \in DaysOf(lo, hi, Per)}
RawLaw == st = "done" => Have(raw) = Want(Near, lo, hi)
WfLaw == st = "done" => Have(wf) = Want(Near, a, b)
EmptyLaw == st = "nodata" => Want(Near, a, b) = {}
FormLaw == st = "done" => {p[1] : p \in Have(raw)} = Must(recs, lo, hi, Per)
\* one piece per maximal stretch, unless values disagree
JoinLaw == (st = "done" /\ ~Conflict(Near)) =>
  \A r, q \in wf : r # q => (r.ver # q.ver \/ ~Touch(r, q))
=============================================================================
