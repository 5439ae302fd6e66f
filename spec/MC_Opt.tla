------------------------------- MODULE MC_Opt -------------------------------
(* Random histories of sinks, filters, messages and recorded statistics, as   *)
(* commands for the library, with the laws of filters checked on the way.     *)
EXTENDS Opt, Json, Randomization
CONSTANT Depth
VARIABLES st, h
Seg == {"a", "b", "carl"}
Chans == {<<>>} \cup {<<x>> : x \in Seg} \cup (Seg \X Seg) \cup (Seg \X Seg \X Seg)
Ids == {"one", "two", "three"}
Sk == DOMAIN st.sinks
Kinds == <<"sink", "filter", "filter", "filter", "log", "log", "log", "visible", "check", "fmt", "newfmt", "has", "reset">>
Cmd(k, i, c, l, b, p, n, f) ==
  CASE k = "sink" -> [op |-> k, id |-> i, file |-> b]
    [] k \in {"filter", "check"} -> [op |-> k, id |-> i, ch |-> c, lvl |-> IF k = "check" /\ l \in {0, 7} THEN 3 ELSE l]
    [] k = "fmt" -> [op |-> k, id |-> i, info |-> b]
    [] k \in {"newfmt", "has"} -> [op |-> k, id |-> i]
    [] k \in {"visible", "log"} -> [op |-> k, ch |-> c, lvl |-> IF l \in {0, 7} THEN 3 ELSE l, msg |-> "hello", path |-> p, src |-> "f.cpp", line |-> n, func |-> f]
    [] OTHER -> [op |-> "reset"]
Random(S) == RandomSubset(1, S)
Init == st = Begin([op |-> "begin"]) /\ h = <<>>
Next == \/ /\ Len(h) < Depth
           /\ \E k \in Random(1..Len(Kinds)), i \in Random(Ids), ch \in Random(Chans), l \in Random(0..7), b \in Random(BOOLEAN), p \in Random({"", "/x/y/", "d/"}), n \in Random({7, 12345}), f \in Random({"", "main"}) :
                LET k0 == Kinds[k]
                    k1 == IF k0 \in {"filter", "check", "fmt", "newfmt"} /\ i \notin Sk THEN "sink" ELSE k0
                    c == Cmd(k1, i, ch, l, b, p, n, f) IN
                /\ st' = After(st, c) /\ h' = Append(h, c)
        \/ Len(h) = Depth /\ PrintT("HIST" \o ToJson(Append(h, [op |-> "end"]))) /\ UNCHANGED st /\ h' = Append(h, [op |-> "end"])
\* A rule for a channel changes nothing outside the channels below it; a message that passes is passed at every higher level.
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Laws == \A i \in Sk : LET f == st.sinks[i].filter IN
          /\ \A c \in Chans : Passes(f, c, 7) /\ (\A l \in 1..6 : Passes(f, c, l) => Passes(f, c, l + 1))
          /\ \A c \in DOMAIN f : LevelOf(f, c) = f[c]
          /\ Len(h) > 0 /\ h[Len(h)].op = "filter" /\ h[Len(h)].id = i =>
               (LET c == h[Len(h)].ch g == (c :> 0) @@ f IN \A d \in Chans : ~Prefix(c, d) => LevelOf(f, d) = LevelOf(g, d))
=============================================================================
