---------------------------------- MODULE RunsMC ----------------------------------
(***************************************************************************)
(* Any sequence of stages of several runs and sub-runs over one directory.   *)
(* MODE "ok" as documented; the others are what the properties exclude:       *)
(* "shared" keeps trigger output of sub-runs in one place; "parent" has       *)
(* locate read the parent run's events; "raw" forgets to clean names when     *)
(* reading; "hidden" lets a result depend on what was run before.             *)
(***************************************************************************)
EXTENDS Runs, TLC
CONSTANTS RunNames, SubNames, Params, MaxOps, MODE
NamesA == {<<"a">>, <<"a", ".", "b">>}
NamesB == {<<"a">>, <<"a", ".", "b">>, <<"a", "_", "b">>}
SubsA == {<<>>, <<"b">>}
SubsB == {<<>>, <<"b">>, <<"e", ".">>}
VARIABLES store, hist, ok
vars == <<store, hist, ok>>
Day == "d"
Op(st, r, sb, p) == [stage |-> st, run |-> r, sub |-> sb, param |-> p, days |-> {Day},
                     rdays |-> {Day}, uids |-> {"u"}, stations |-> {}, log |-> FALSE]
Main(op) == LET l == CASE op.stage = "detect" -> "scan" [] OTHER -> "events"
            IN CHOOSE f \in Files(op) : f[1][1] = l
RawName(n) == IF n = <<>> THEN "" ELSE n[1] \o (IF Len(n) > 1 THEN n[2] ELSE "")
                                       \o (IF Len(n) > 2 THEN n[3] ELSE "")
WritePath(op) == IF MODE = "shared" /\ op.stage = "trigger"
                 THEN Base(op.run, "trigger") \o <<"events", Clean(op.run) \o "_" \o Day>>
                 ELSE Main(op)[2]
ReadPath(op) ==
  CASE op.stage = "trigger" -> Main(Op("detect", op.run, <<>>, 1))[2]
    [] OTHER -> LET t == Op("trigger", op.run, IF MODE = "parent" THEN <<>> ELSE op.sub, 1)
                IN IF MODE = "raw" THEN <<RawName(op.run)>> \o Tail(WritePath(t))
                   ELSE WritePath(t)
Look(S, p) == {t \in S : t[1] = p}
Result(op, S) ==
  LET in == IF op.stage = "detect" THEN {} ELSE {t[2] : t \in Look(S, ReadPath(op))}
  IN <<op.stage, op.param, in, IF MODE = "hidden" /\ hist # <<>> THEN hist[Len(hist)].param ELSE 0>>
Put(S, p, x) == {t \in S : t[1] # p} \cup {<<p, x>>}
Init == store = {} /\ hist = <<>> /\ ok = TRUE
Do(op) ==
  /\ op.stage # "detect" => Look(store, ReadPath(op)) # {}
  /\ store' = Put(store, WritePath(op), Result(op, store))
  /\ hist' = hist \o <<op>>
  /\ ok' = (ok /\ \A t \in store' \ store : t[1] \in Owned(op))
Next == /\ Len(hist) < MaxOps
        /\ \E r \in RunNames, p \in Params :
             \/ Do(Op("detect", r, <<>>, p))
             \/ \E sb \in SubNames : Do(Op("trigger", r, sb, p)) \/ Do(Op("locate", r, sb, p))
Confined == ok
\* each run's files are what its own operations alone produce
RECURSIVE Alone(_, _)
Out(op, S) == <<op.stage, op.param,
                IF op.stage = "detect" THEN {} ELSE {x[2] : x \in Given(op, S) }, 0>>
Alone(h, S) == IF h = <<>> THEN S
               ELSE LET op == Head(h)
                    IN Alone(Tail(h), Put(S, Main(op)[2], Out(op, S)))
RunOf(n) == {t \in store : t[1][1] = Clean(n)}
Own(n) == SelectSeq(hist, LAMBDA op : Clean(op.run) = Clean(n))
Apart == \A n \in RunNames : RunOf(n) = Alone(Own(n), {})
\* sub-runs as well
SubPart(n, sb) == SelectSeq(hist, LAMBDA op : Clean(op.run) = Clean(n)
                    /\ (op.stage = "detect" \/ Clean(op.sub) = Clean(sb)))
SubsApart == \A n \in RunNames, sb \in SubNames :
  {t \in store : t[1][1] = Clean(n) /\ t[1][2] # "detect"
                 /\ \E st \in {"trigger", "locate"} : t[1] = Main(Op(st, n, sb, 1))[2]}
    = {t \in Alone(SubPart(n, sb), {}) : t[1][2] # "detect"}
\* what was written is found again
Found == \A k \in DOMAIN hist : hist[k].stage = "trigger" =>
           Look(store, ReadPath([hist[k] EXCEPT !.stage = "locate"])) # {}
\* different names only meet where cleaning makes them the same
NoClash == \A n, m \in RunNames, a, b \in SubNames, st \in {"trigger", "locate"} :
  Main(Op(st, n, a, 1))[2] = Main(Op(st, m, b, 1))[2]
    => Clean(n) = Clean(m) /\ Clean(a) = Clean(b)
=============================================================================
