-------------------------------- MODULE AvailMC --------------------------------
(***************************************************************************)
(* The availability decision as a sequence of tests, each of which may stop  *)
(* the look at a channel, for every small stream and every setting; a        *)
(* stricter setting never makes anything available.                         *)
(***************************************************************************)
EXTENDS Waveforms, TLC
CONSTANTS W, MaxN, MaxTraces
VARIABLES T, o, todo, av, cur, test, res, st
vars == <<T, o, todo, av, cur, test, res, st>>
Piece == {t \in [id : 1..2, s : -1..W, n : 1..MaxN, p : 1..2, flat : BOOLEAN] :
            /\ (t.n = 1 => t.flat) /\ (t.id = 2 => t.p = 1)}
RECURSIVE Few(_)
Few(m) == IF m = 0 THEN {{}}
          ELSE LET F == Few(m - 1) IN F \cup {S \cup {t} : S \in F, t \in Piece}
Opt == [gaps : BOOLEAN, full : BOOLEAN, csr : BOOLEAN, ends : BOOLEAN, all : BOOLEAN,
        rate : {1}, count : 1..2]
Uniform(S) == \A x, y \in S : x.id = y.id => x.p = y.p
Init == /\ T \in {S \in Few(MaxTraces) : Uniform(S)} /\ o \in Opt
        /\ todo = IdsOf(T) /\ av = [i \in {} |-> 0] /\ cur = 0 /\ test = 0 /\ res = 0
        /\ st = "run"
Pick == /\ st = "run" /\ cur = 0 /\ todo # {}
        /\ cur' = CHOOSE i \in todo : TRUE
        /\ todo' = todo \ {cur'} /\ test' = 1
        /\ UNCHANGED <<T, o, av, res, st>>
Fails == LET S == Of(T, cur)
         IN CASE test = 1 -> Flatline(S)
              [] test = 2 -> Overlapped(S)
              [] test = 3 -> ~o.gaps /\ Gapped(S)
              [] test = 4 -> o.csr /\ \E t \in S : t.p # o.rate
              [] test = 5 -> o.full /\ ~Whole(S, W)
              [] OTHER -> o.ends /\ ~Exact(S, W)
Test == /\ st = "run" /\ cur # 0
        /\ IF Fails THEN av' = av @@ (cur :> 0) /\ cur' = 0 /\ test' = 0
           ELSE IF test = 6 THEN av' = av @@ (cur :> 1) /\ cur' = 0 /\ test' = 0
           ELSE test' = test + 1 /\ UNCHANGED <<av, cur>>
        /\ UNCHANGED <<T, o, todo, res, st>>
Decide == /\ st = "run" /\ cur = 0 /\ todo = {}
          /\ st' = "done"
          /\ LET ones == {i \in DOMAIN av : av[i] = 1}
             IN res' = IF T = {} THEN 0
                       ELSE IF ones = DOMAIN av
                            THEN IF o.all THEN IF Cardinality(DOMAIN av) = o.count THEN 1 ELSE 0
                                 ELSE 1
                            ELSE IF ~o.all /\ ones # {} THEN 1 ELSE 0
          /\ UNCHANGED <<T, o, todo, av, cur, test>>
Next == Pick \/ Test \/ Decide
Agrees == st = "done" => /\ (res = 1) = Available(T, o, W)
                         /\ DOMAIN av = IdsOf(T)
                         /\ {i \in DOMAIN av : av[i] = 1} = Good(T, o, W)
Stricter == {x \in {[o EXCEPT !.gaps = FALSE], [o EXCEPT !.full = TRUE], [o EXCEPT !.csr = TRUE],
                    [o EXCEPT !.ends = TRUE], [o EXCEPT !.all = TRUE]} : x # o}
Monotone == st = "done" => \A x \in Stricter : Available(T, x, W) => res = 1
=============================================================================
