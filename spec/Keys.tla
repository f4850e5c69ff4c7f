---------------------------------- MODULE Keys ----------------------------------
(* Key texts.  A text is a list of lines: "B:x" and "E:x" open and close a block of kind x, "t" is *)
(* text without meaning, "W:k" is the text the library itself writes for key k (a whole block),    *)
(* anything else is encoded data.  Reading with a reader [k: kind, via] yields a key, "err", or, as *)
(* documented for a value processor and the empty text, "none".                                    *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES doc
vars == <<doc>>
Kinds == {"priv", "pub", "cert"}
(* the key that data denotes; "-one" is the same data on one line.  Data of no key: other kinds of key, cut off or  *)
(* extended data, and numbers that do not belong together ("-d", "-p", "-mix")                                       *)
Bad == {"ec", "pkcs8", "trunc", "junk", "priv-d", "priv-p", "priv-mix", "priv-tail", "pub-tail", "pub-alg", "rsapub", "cert-tail"}
Data == [d \in Bad \cup {"priv1", "priv1-one", "priv2", "pub1", "pub1-one", "pub2", "cert1"} |->
           CASE d \in {"priv1", "priv1-one"} -> [k |-> "priv", id |-> "priv1"] [] d = "priv2" -> [k |-> "priv", id |-> "priv2"]
             [] d \in {"pub1", "pub1-one"} -> [k |-> "pub", id |-> "pub1"] [] d = "pub2" -> [k |-> "pub", id |-> "pub2"]
             [] d = "cert1" -> [k |-> "cert", id |-> "cert1"] [] OTHER -> [k |-> "none", id |-> "none"]]
Labels == Kinds \cup {"pkcs8", "rsapub", "xcert", "lower"}       \* the last: labels much like those of a kind
Begins == [x \in {"B:" \o y : y \in Labels} |-> CHOOSE y \in Labels : x = "B:" \o y]
Ends == [x \in {"E:" \o y : y \in Labels} |-> CHOOSE y \in Labels : x = "E:" \o y]
Written == [x \in {"W:pub1", "W:pub2"} |-> IF x = "W:pub1" THEN "pub1" ELSE "pub2"]
RECURSIVE Expand(_)
Expand(s) == IF s = <<>> THEN <<>> ELSE (IF Head(s) \in DOMAIN Written THEN <<"B:pub", Written[Head(s)], "E:pub">> ELSE <<Head(s)>>) \o Expand(Tail(s))
HasB(s) == \E i \in DOMAIN s : s[i] \in DOMAIN Begins
HasE(s) == \E i \in DOMAIN s : s[i] \in DOMAIN Ends
(* blocks: open, one piece of data, close of the same kind *)
IsBlock(s, i) == i + 2 <= Len(s) /\ s[i] \in DOMAIN Begins /\ s[i + 2] \in DOMAIN Ends /\ Begins[s[i]] = Ends[s[i + 2]] /\ s[i + 1] \in DOMAIN Data
KeyAt(s, i, k) == IF Begins[s[i]] = k /\ Data[s[i + 1]].k = k THEN Data[s[i + 1]].id ELSE "err"
Keys(s, k) == {KeyAt(s, i, k) : i \in {j \in DOMAIN s : IsBlock(s, j)}}
Marks(s) == {i \in DOMAIN s : s[i] \in DOMAIN Begins \cup DOMAIN Ends}
(* exactly one block, and nothing else but text around it *)
Plain(s) == \E i \in DOMAIN s : IsBlock(s, i) /\ \A j \in DOMAIN s \ {i, i + 1, i + 2} : s[j] = "t"
(* data without any block is read as a block of the reader's kind *)
Bare(s, k) == IF Len(s) = 1 /\ s[1] \in DOMAIN Data /\ Data[s[1]].k = k THEN {Data[s[1]].id} ELSE {"err"}
(* text within a block, perhaps a header: that of the format or not *)
Headed(s) == \E i, j, l \in DOMAIN s : i < j /\ j < l /\ s[i] \in DOMAIN Begins /\ s[j] = "t" /\ s[l] \in DOMAIN Ends
Anything(s, k) == {"err"} \cup Keys(s, k)
Results(k, via) ==
  LET s == Expand(doc) IN
  CASE s = <<>> /\ via = "proc" -> {"none"}
    [] Marks(s) = {} -> IF via \in {"bytes", "mustbytes"} THEN {"err"} ELSE IF Len(s) = 1 THEN Bare(s, k) ELSE {"err"} \cup {Data[s[i]].id : i \in {j \in DOMAIN s : s[j] \in DOMAIN Data /\ Data[s[j]].k = k}}
    [] Plain(s) -> Keys(s, k)
    [] \A i \in DOMAIN s : ~IsBlock(s, i) -> {"err"} \cup (IF HasB(s) /\ HasE(s) /\ ~Headed(s) THEN {} ELSE {Data[s[i]].id : i \in {j \in DOMAIN s : s[j] \in DOMAIN Data /\ Data[s[j]].k = k}})
    [] OTHER -> Anything(s, k)
Init == doc = <<>>
Put(t) == doc' = Append(doc, t)
Read(k, via, r) == r \in Results(k, via) /\ UNCHANGED doc
Clear == doc' = <<>>
----------------------------------------------------------------------------
(* a key is only ever read from text that contains it, with a reader of its kind *)
Sound == \A k \in Kinds, via \in {"str", "bytes", "proc"} : \A r \in Results(k, via) :
           r \notin {"err", "none"} => \E i \in DOMAIN Expand(doc) : Expand(doc)[i] \in DOMAIN Data /\ Data[Expand(doc)[i]] = [k |-> k, id |-> r]
RoundTrip == \A x \in DOMAIN Written : doc = <<x>> => \A via \in {"str", "bytes", "must", "mustbytes", "proc"} : Results("pub", via) = {Written[x]}
NoEmpty == \A k \in Kinds, via \in {"str", "bytes", "proc"} : Results(k, via) # {}
=============================================================================
