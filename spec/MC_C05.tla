------------------------------- MODULE MC_C05 -------------------------------
(* A text travels: a PSBT is written in base64, at most Faults characters are  *)
(* changed, lost or added on the way, and the text is read.                     *)
EXTENDS WireModel, Base64
CONSTANTS Faults
VARIABLES text, faults, org
tvars == <<vars, text, faults, org>>
Marks == {"A", "B", "/", "=", "-", "_", " ", "\n", "!", "0"}
TInit == Init /\ text = "" /\ faults = 0 /\ org = ""
Write == text = "" /\ Next /\ UNCHANGED <<text, faults, org>>
Send == text = "" /\ stage = 4 /\ text' = B64(bytes) /\ org' = B64(bytes) /\ UNCHANGED <<vars, faults>>
(* places worth trying: both ends and a few in between *)
Places == {k \in 1..Len(text) : k <= 9 \/ k > Len(text) - 5 \/ k % 16 = 0}
Change == /\ text # "" /\ faults < Faults
          /\ \E k \in Places :
               \/ \E c \in Marks : text' = SubSeq(text, 1, k - 1) \o c \o SubSeq(text, k + 1, Len(text))
               \/ \E c \in Marks : text' = SubSeq(text, 1, k) \o c \o SubSeq(text, k + 1, Len(text))
               \/ text' = SubSeq(text, 1, k - 1) \o SubSeq(text, k + 1, Len(text))
               \/ text' = SubSeq(text, 1, k - 1)
          /\ faults' = faults + 1 /\ UNCHANGED <<vars, org>>
TNext == Write \/ Send \/ Change
TSpec == TInit /\ [][TNext]_tvars
Read == UnB64(text)
(* what is sent is what is read *)
Faithful == (text # "" /\ faults = 0) => Read = <<"ok", bytes>>
(* a canonical text has one reading and is the one text of it *)
Canonical == (text # "" /\ Read[1] = "ok") => B64(Read[2]) = text
(* a text that reads as the same bytes in another way is not canonical *)
Unique == (text # "" /\ text # org /\ Read[2] = bytes) => Read[1] # "ok"
EmitText == IF text # "" THEN \A w \in {0, 2} : PrintT("CASE " \o ToJson([k |-> "text", ver |-> w, text |-> text])) ELSE TRUE
=============================================================================
