--------------------------------- MODULE Opt ---------------------------------
(* Settings, log filtering and statistics (C32).                              *)
(* A text with a unit is given in three parts: sign or junk, digits, suffix.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Q
NoFun == [x \in {} |-> 0]
Txt(t) == t[1] \o t[2] \o t[3]
RECURSIVE Times(_, _)
Times(b, n) == IF n = 0 THEN "1" ELSE QMul(b, Times(b, n - 1))
DurUnits == [ns |-> "1", us |-> "1000", ms |-> "1000000", s |-> "1000000000", m |-> "60000000000", h |-> "3600000000000"]
Prefixes == <<"K", "M", "G", "T", "P", "E">>
BinUnit(s) == IF s = "" THEN "1" ELSE Times("1024", CHOOSE i \in 1..6 : s \in {Prefixes[i], Prefixes[i] \o "i"})
MetUnit(s) == IF s = "" THEN "1" ELSE Times("1000", CHOOSE i \in 1..6 : s = Prefixes[i])
BinSuffixes == {""} \cup {Prefixes[i] : i \in 1..6} \cup {Prefixes[i] \o "i" : i \in 1..6}
MetSuffixes == {""} \cup {Prefixes[i] : i \in 1..6}
Two63 == QPow("2", 63)
Two64 == QPow("2", 64)
DurUnit(s) == IF s = "mus" THEN "1000" ELSE DurUnits[s]
DurSuffixes == DOMAIN DurUnits \cup {"mus"}
\* The value of a text in its smallest unit, whether or not it is representable.
Value(ty, t) ==
  CASE ty = "dur" -> QMul(IF t[1] = "-" THEN QNeg(QAdd(t[2], "0")) ELSE QAdd(t[2], "0"), DurUnit(t[3]))
    [] ty = "bin" -> QMul(t[2], BinUnit(t[3]))
    [] ty = "met" -> QMul(t[2], MetUnit(t[3]))
Accepted(ty, t) ==
  CASE ty = "dur" -> t[1] \in {"", "-"} /\ t[2] # "" /\ t[3] \in DurSuffixes /\ (LET v == Value(ty, t) IN QLe(QNeg(Two63), v) /\ QLt(v, Two63))
    [] ty = "bin" -> t[1] = "" /\ t[2] # "" /\ t[3] \in BinSuffixes /\ QLt(Value(ty, t), Two64)
    [] ty = "met" -> t[1] = "" /\ t[2] # "" /\ t[3] \in MetSuffixes /\ QLt(Value(ty, t), Two64)
    [] ty = "num" -> t[1] = "" /\ t[2] # "" /\ t[3] = "" /\ QLt(t[2], Two64)
    [] ty = "flag" -> t[1] = "" /\ t[2] = "" /\ t[3] \in {"true", "false"}
    [] OTHER -> TRUE
\* Units in increasing order, each with its suffix.
Units(ty) ==
  CASE ty = "dur" -> << <<"ns", "1">>, <<"mus", "1000">>, <<"ms", "1000000">>, <<"s", "1000000000">>, <<"m", "60000000000">>, <<"h", "3600000000000">> >>
    [] ty = "bin" -> [i \in 1..7 |-> IF i = 1 THEN <<"", "1">> ELSE <<Prefixes[i - 1] \o "i", Times("1024", i - 1)>>]
    [] ty = "met" -> [i \in 1..7 |-> IF i = 1 THEN <<"", "1">> ELSE <<Prefixes[i - 1], Times("1000", i - 1)>>]
\* Shown in the largest unit in which the value is not zero.
Shown(ty, v) ==
  LET u == Units(ty)
      fits == {i \in 1..Len(u) : i = 1 \/ QLe(u[i][2], v)}
      k == CHOOSE i \in fits : \A j \in fits : j <= i
  IN QTrunc(QDiv(v, u[k][2])) \o u[k][1]
\* ---- options
OptNames == {"flag", "num", "str", "dur", "bin", "met"}
ValueOf(n, t) == CASE n \in {"dur", "bin", "met"} -> Value(n, t) [] n = "num" -> QAdd(t[2], "0") [] OTHER -> Txt(t)
ShowVal(n, v) == IF n \in {"dur", "bin", "met"} THEN Shown(n, v) ELSE v
Given(l) == {i \in 1..Len(l) : l[i][1] \in OptNames}
Once(l, S) == \A i, j \in S : i # j => l[i][1] # l[j][1]
Unknown(l) == {l[i][1] : i \in {j \in 1..Len(l) : l[j][1] \notin OptNames}}
CfgOf(e) == IF "cfg" \in DOMAIN e THEN e.cfg ELSE <<>>
\* Entries of the configuration file that count: those of options not given on the command line.
CliSet(e) == {e.cli[i][1] : i \in Given(e.cli)}
CfgLive(e) == {i \in Given(CfgOf(e)) : CfgOf(e)[i][1] \notin CliSet(e)}
CliText(a) == IF a[1] = "flag" THEN <<"", "", "true">> ELSE a[2]
Rejects(e) ==
  \/ ~Once(e.cli, Given(e.cli))
  \/ \E i \in Given(e.cli) : ~Accepted(e.cli[i][1], CliText(e.cli[i]))
  \/ ~Once(CfgOf(e), CfgLive(e))
  \/ \E i \in CfgLive(e) : ~Accepted(CfgOf(e)[i][1], CfgOf(e)[i][2])
  \/ ~e.allow /\ Unknown(e.cli) \cup Unknown(CfgOf(e)) # {}
\* Values after reading: [set by the user, value]; unset options are absent.
Read(e) ==
  LET c == CfgOf(e)
      user == CliSet(e) \cup {c[i][1] : i \in CfgLive(e)}
      dflt == DOMAIN e.defs \cup {"flag"}
      v(n) == IF n \in CliSet(e) THEN (LET a == e.cli[CHOOSE i \in Given(e.cli) : e.cli[i][1] = n] IN ValueOf(n, CliText(a)))
              ELSE IF n \in user THEN (LET a == c[CHOOSE i \in CfgLive(e) : c[i][1] = n] IN ValueOf(n, a[2]))
              ELSE IF n = "flag" THEN "false" ELSE ValueOf(n, e.defs[n])
  IN [n \in user \cup dflt |-> [user |-> n \in user, v |-> v(n)]]
Act(m, a) ==
  LET n == a[2] val == ValueOf(n, a[3]) IN
  IF a[1] = "overwrite" THEN [x \in DOMAIN m \cup {n} |-> IF x = n THEN [user |-> TRUE, v |-> val] ELSE m[x]]
  ELSE IF n \in DOMAIN m /\ m[n].user THEN m
  ELSE [x \in DOMAIN m \cup {n} |-> IF x = n THEN [user |-> FALSE, v |-> val] ELSE m[x]]
RECURSIVE Acts(_, _)
Acts(m, l) == IF l = <<>> THEN m ELSE Acts(Act(m, Head(l)), Tail(l))
RECURSIVE AllActs(_)
AllActs(f) == IF f = <<>> THEN <<>> ELSE Head(f).acts \o AllActs(Tail(f))
\* A default given twice for the same option: which one wins is not specified.
Disputed(acts) == {acts[i][2] : i \in {k \in 1..Len(acts) : acts[k][1] = "default" /\ \E j \in 1..Len(acts) : j # k /\ acts[j][2] = acts[k][2]}}
OptsOk(e) ==
  LET r == e.r m == Read(e) acts == AllActs(e.fin) f == Acts(m, acts) IN
  /\ r.called = [i \in 1..Len(e.fin) |-> i]
  /\ \A n \in OptNames \ Disputed(acts) : r.vals[n] = IF n \in DOMAIN f THEN ShowVal(n, f[n].v) ELSE "<empty>"
  \* settings objects have received what was read before any finalizer runs
  /\ \A n \in DOMAIN m : r.bound[n] = ShowVal(n, m[n].v)
  /\ \A n \in OptNames \ DOMAIN m : r.bound[n] = IF n = "str" THEN "none" ELSE IF n = "dur" THEN "99ns" ELSE "99"
  /\ \A n \in DOMAIN m : f[n] = m[n] /\ n \notin Disputed(acts) => r.after[n] = r.bound[n]
  \* with "bound" in the event: the settings objects also receive what the finalizers changed
  /\ "bound" \in DOMAIN e => \A n \in DOMAIN m : r.after[n] = ShowVal(n, f[n].v)
  /\ LET w == {r.warned[i] : i \in 1..Len(r.warned)} IN
     IF e.allow THEN Unknown(e.cli) \cup Unknown(CfgOf(e)) \subseteq w /\ w \cap OptNames = {} ELSE w = {}
  /\ r.cfgwarn = ("nocfg" \in DOMAIN e)
  /\ \A i \in 1..6 : r.help[i]
\* ---- log filtering: a filter maps channels (lists of segments) to levels; the rule of the longest prefix decides.
Default == 4
LevelOf(f, ch) == LET n == CHOOSE k \in 0..Len(ch) : SubSeq(ch, 1, k) \in DOMAIN f /\ \A j \in (k + 1)..Len(ch) : SubSeq(ch, 1, j) \notin DOMAIN f IN f[SubSeq(ch, 1, n)]
Passes(f, ch, lvl) == lvl >= LevelOf(f, ch)
LevelName == <<"ALL", "TRACE", "DEBUG", "INFO", "WARN", "ERROR", "FATAL", "OFF">>
RECURSIVE Dotted(_)
Dotted(ch) == IF Len(ch) = 1 THEN ch[1] ELSE ch[1] \o "." \o Dotted(Tail(ch))
Line(s, e) ==
  IF ~s.info THEN <<e.msg>>
  ELSE <<LevelName[e.lvl + 1]>> \o (IF e.ch = <<>> THEN <<>> ELSE <<Dotted(e.ch)>>) \o <<e.src \o ":" \o ToString(e.line)>> \o
       (IF e.func = "" THEN <<>> ELSE <<e.func \o "():">>) \o <<e.msg>>
FreshSink(e) == [filter |-> (<<>> :> Default), info |-> TRUE]
Received(st, e) == {id \in DOMAIN st.sinks : Passes(st.sinks[id].filter, e.ch, e.lvl)}
LogOk(st, e) ==
  LET got == {e.r[i][1] : i \in 1..Len(e.r)} IN
  /\ got = Received(st, e) /\ Cardinality(got) = Len(e.r)
  /\ \A i \in 1..Len(e.r) : e.r[i][2] = << Line(st.sinks[e.r[i][1]], e) >>
\* ---- statistics
Pairs(l) == {<<l[i][1], l[i][2]>> : i \in 1..Len(l)}
Name(ps) == IF ps = <<>> THEN "" ELSE ps[1] \o (IF Len(ps) = 1 THEN "" ELSE ps[2] \o (IF Len(ps) = 2 THEN "" ELSE ps[3] \o (IF Len(ps) = 3 THEN "" ELSE ps[4])))
XmlName(ps) == Name([i \in 1..Len(ps) |-> IF ps[i] = "<" THEN "(" ELSE IF ps[i] = ">" THEN ")" ELSE ps[i]])
\* recorded values: function from key to value text
Put(f, k, v) == IF k \in DOMAIN f THEN f ELSE (k :> v) @@ f
RECURSIVE PutAll(_, _)
PutAll(f, l) == IF l = <<>> THEN f ELSE PutAll(Put(f, Head(l)[1], Head(l)[2]), Tail(l))
Collected(s) == IF ~s.on THEN s ELSE [s EXCEPT !.kv = PutAll(@, s.plan), !.timed = @ \cup DOMAIN s.timers]
\* The entries of one object: those recorded, and for each timer its count and a duration.
EntriesOk(s, kv) ==
  LET keys == {kv[i][1] : i \in 1..Len(kv)}
      time == {k \o "_count" : k \in s.timed} \cup {k \o "_overall_ms" : k \in s.timed} IN
  /\ keys = DOMAIN s.kv \cup time /\ Cardinality(keys) = Len(kv)
  /\ \A i \in 1..Len(kv) :
       /\ kv[i][1] \in DOMAIN s.kv => kv[i][2] = s.kv[kv[i][1]]
       /\ \A k \in s.timed : kv[i][1] = k \o "_count" => kv[i][2] = ToString(s.timers[k])
Shows(s) == DOMAIN s.kv # {} \/ s.timed # {}
\* The text is the concatenation of one block per object, in order of creation.
Blocks(st) == SelectSeq(st.stats, Shows)
Size(s) == Cardinality(DOMAIN s.kv) + 2 * Cardinality(s.timed)
RECURSIVE SmtOk(_, _)
SmtOk(bs, l) ==
  IF bs = <<>> THEN l = <<>>
  ELSE LET s == Head(bs) n == Size(s) IN
       /\ Len(l) >= n + 2
       /\ l[1] = <<"(:" \o Name(s.name), "(">> /\ l[n + 2] = <<"))">>
       /\ \A i \in 2..(n + 1) : Len(l[i]) = 2
       /\ {l[i][1] : i \in 2..(n + 1)} = {":" \o k : k \in DOMAIN s.kv} \cup {":" \o k \o "_count" : k \in s.timed} \cup {":" \o k \o "_overall_ms" : k \in s.timed}
       /\ \A k \in DOMAIN s.kv : \E i \in 2..(n + 1) : l[i] = <<":" \o k, s.kv[k]>>
       /\ \A k \in s.timed : \E i \in 2..(n + 1) : l[i] = <<":" \o k \o "_count", ToString(s.timers[k])>>
       /\ SmtOk(Tail(bs), SubSeq(l, n + 3, Len(l)))
Stat(k, v) == "\t\t<stat name=\"" \o k \o "\" value=\"" \o v \o "\" />"
RECURSIVE XmlOk(_, _)
XmlOk(bs, l) ==
  IF bs = <<>> THEN l = <<>>
  ELSE LET s == Head(bs) n == Size(s) body == {l[i] : i \in 2..(n + 1)} IN
       /\ Len(l) >= n + 2
       /\ l[1] = "\t<module name=\"" \o XmlName(s.name) \o "\">" /\ l[n + 2] = "\t</module>"
       /\ \A k \in DOMAIN s.kv : Stat(k, s.kv[k]) \in body
       /\ \A k \in s.timed : Stat(k \o "_count", ToString(s.timers[k])) \in body
       /\ Cardinality(body) = n
       /\ XmlOk(Tail(bs), SubSeq(l, n + 3, Len(l)))
\* ----
Begin(e) == [sinks |-> NoFun, objs |-> NoFun, stats |-> <<>>]
Throws(st, e) ==
  CASE e.op = "qty" -> ~Accepted(e.ty, e.t) \/ (e.ty # "dur" /\ ~Accepted(e.ty, e.u))
    [] e.op = "opts" -> Rejects(e)
    [] e.op = "get" -> e.n \in DOMAIN st.objs /\ st.objs[e.n].ty # e.ty
    [] OTHER -> FALSE
QtyOk(e) ==
  LET v == Value(e.ty, e.t) u == Units(e.ty) r == e.r IN
  /\ Accepted(e.ty, e.t) /\ (e.ty # "dur" => Accepted(e.ty, e.u))
  /\ r.acc = [i \in 1..Len(u) |-> QTrunc(QDiv(v, u[i][2]))]
  /\ r.str = Shown(e.ty, v)
  /\ e.ty # "dur" => (LET w == Value(e.ty, e.u) IN r.eq = (v = w) /\ r.lt = QLt(v, w) /\ r.gt = QLt(w, v))
Ok(st, e) ==
  CASE e.op = "qty" -> QtyOk(e)
    [] e.op = "opts" -> ~Rejects(e) /\ OptsOk(e)
    [] e.op = "get" -> ~Throws(st, e) /\ e.r.old = IF e.n \in DOMAIN st.objs THEN st.objs[e.n].v ELSE IF e.ty = "a" THEN "5" ELSE "b"
    [] e.op = "sink" -> e.r = <<>>
    [] e.op \in {"filter", "fmt", "newfmt", "reset", "srec", "splan", "collect", "end"} -> e.r = "done"
    [] e.op = "has" -> e.r = (e.id \in DOMAIN st.sinks)
    [] e.op = "check" -> e.r = Passes(st.sinks[e.id].filter, e.ch, e.lvl)
    [] e.op = "visible" -> e.r = (Received(st, e) # {})
    [] e.op = "log" -> LogOk(st, e)
    [] e.op = "snew" -> e.r = Len(st.stats) + 1
    [] e.op = "stime" -> e.r.n = 1 + (IF e.k \in DOMAIN st.stats[e.i].timers THEN st.stats[e.i].timers[e.k] ELSE 0) /\ e.r.ms \in 0..10000
    [] e.op = "scoll" -> e.r.name = Name(st.stats[e.i].name) /\ EntriesOk(st.stats[e.i], e.r.kv)
    [] e.op = "smt" -> SmtOk(Blocks(st), e.r)
    [] e.op = "xml" -> IF e.file THEN e.r[1] = "<runtimestats>" /\ e.r[Len(e.r)] = "</runtimestats>" /\ XmlOk(Blocks(st), SubSeq(e.r, 2, Len(e.r) - 1)) ELSE XmlOk(Blocks(st), e.r)
Allowed(st, e) == Ok(st, e)
After(st, e) ==
  CASE "throw" \in DOMAIN e -> st
    [] e.op = "get" -> IF "v" \in DOMAIN e THEN [st EXCEPT !.objs = (e.n :> [ty |-> e.ty, v |-> ToString(e.v)]) @@ @]
                       ELSE IF e.n \in DOMAIN st.objs THEN st ELSE [st EXCEPT !.objs = (e.n :> [ty |-> e.ty, v |-> IF e.ty = "a" THEN "5" ELSE "b"]) @@ @]
    [] e.op = "sink" -> [st EXCEPT !.sinks = (e.id :> FreshSink(e)) @@ @]
    [] e.op = "filter" -> [st EXCEPT !.sinks[e.id].filter = (e.ch :> e.lvl) @@ @]
    [] e.op = "fmt" -> [st EXCEPT !.sinks[e.id].info = e.info]
    [] e.op = "newfmt" -> [st EXCEPT !.sinks[e.id].info = TRUE]
    [] e.op = "snew" -> [st EXCEPT !.stats = Append(@, [name |-> e.name, on |-> e.on, plan |-> <<>>, kv |-> NoFun, timers |-> NoFun, timed |-> {}])]
    [] e.op = "srec" -> [st EXCEPT !.stats[e.i].kv = Put(@, e.k, e.v)]
    [] e.op = "splan" -> [st EXCEPT !.stats[e.i].plan = Append(@, <<e.k, e.v>>)]
    [] e.op = "stime" -> [st EXCEPT !.stats[e.i].timers = (e.k :> e.r.n) @@ @]
    [] e.op = "collect" -> [st EXCEPT !.stats = [i \in DOMAIN @ |-> Collected(@[i])]]
    [] OTHER -> st
=============================================================================
