----------------------------- MODULE MC_OptUnits -----------------------------
(* Texts with units: every text is either rejected or has one value, and the  *)
(* printed value is the largest unit's and never exceeds it.                  *)
EXTENDS Opt, Json
VARIABLES ty, t, phase
Nums == {"0", "1", "5", "59", "60", "999", "1000", "1023", "1024", "1500", "3599", "3600", "1048575", "18446744073709551615", "18446744073709551616", "9223372036854775807", "9223372036854775808", "007", ""}
Sufs == BinSuffixes \cup MetSuffixes \cup DurSuffixes \cup {"k", "i", "nsx", " s", "S", "H", "KiB"}
Init == ty \in {"dur", "bin", "met"} /\ t \in {"", "-", " ", "x"} \X Nums \X Sufs /\ phase = 0
Next == phase = 0 /\ phase' = 1 /\ UNCHANGED <<ty, t>>
        /\ PrintT("HIST" \o ToJson(<<[op |-> "qty", ty |-> ty, t |-> t, u |-> <<"", "1024", "">>]>>))
Laws == Accepted(ty, t) =>
          LET v == Value(ty, t) us == Units(ty) IN
          /\ QIsInt(v)
          /\ \E i \in 1..Len(us) : LET k == QTrunc(QDiv(v, us[i][2])) IN
               /\ Shown(ty, v) = k \o us[i][1]
               /\ QLe(QAbs(QMul(k, us[i][2])), QAbs(v))
               /\ QSgn(v) = 1 => (QSgn(k) = 1 /\ \A j \in (i + 1)..Len(us) : QTrunc(QDiv(v, us[j][2])) = "0")
=============================================================================
