---------------------------- MODULE JSelfCheck -----------------------------
(* Conformance of recorded warnings to SelfCheck (P26).                      *)
(* "layout": level, p/a the extrema found and up/ua those used (phases, one  *)
(* orbit = 20), warns the warnings shown.  "direct": the separation check    *)
(* called by itself on the list s with its own limits (half, num/den for the *)
(* ratio): warns, and the gaps and ratios (1e-6) it returns, close/far: the  *)
(* positions in s of the times the warnings name.                            *)
(* "mono": trend of the eccentricity at the samples of the measured range    *)
(* (1 increases, -1 does not, 0: too close to call), warned, lo/hi the range *)
(* named (0: not readable), neg/negwarn: a negative eccentricity was         *)
(* returned/reported, d1/d2: deviation of the derivatives that can be        *)
(* queried, in 1e-6.  "fails": an error where the same request without       *)
(* warnings is answered.                                                     *)
EXTENDS Judge
LOCAL X == INSTANCE SelfCheck WITH Gaps <- {}, NP <- 0, NA <- 0, Offsets <- {}, ELen <- 0, Emit <- FALSE, p <- <<>>, a <- <<>>, e <- <<>>,
                                   pos <- 0, lastp <- 0, lasta <- 0, gapp <- 0, gapa <- 0, np <- 0, na <- 0, kind <- "", flags <- {}, up <- 0
Set(x) == {x[i] : i \in 1..Len(x)}
Kinds == {"differ", "mixed", "close-p", "close-a", "half", "far-p", "far-a", "dropped-p", "dropped-a"}
True(r) == LET w == X!Warns(r.up, r.ua, X!Half) IN
    (w \ {"half-p", "half-a"}) \cup (IF w \cap {"half-p", "half-a"} # {} THEN {"half"} ELSE {})
    \cup (IF X!TooMany(Len(r.p), Len(r.up)) THEN {"dropped-p"} ELSE {})
    \cup (IF X!TooMany(Len(r.a), Len(r.ua)) THEN {"dropped-a"} ELSE {})
Layout(r) ==
    LET want == IF r.level >= 1 THEN True(r) ELSE {}
        seen == Set(r.warns) \cap Kinds
    IN (IF want \ seen # {} THEN {"missing-warning"} ELSE {}) \cup (IF seen \ want # {} THEN {"false-warning"} ELSE {})
Far(s, num, den) == \E k \in 2..X!NG(s) : den * X!Gap(s, k) > num * X!Gap(s, k - 1)
Direct(r) ==
    LET want == IF r.level < 1 THEN {} ELSE
                  {w \in {"close-" \o r.type, "far-" \o r.type, "half"} :
                     \/ w = "close-" \o r.type /\ X!TooClose(r.s, r.half)
                     \/ w = "far-" \o r.type /\ Far(r.s, r.num, r.den)
                     \/ w = "half" /\ X!NearHalf(r.s, X!Half)}
        seen == Set(r.warns) \cap Kinds
        G == [k \in 1..X!NG(r.s) |-> X!Gap(r.s, k)]
    IN (IF want \ seen # {} THEN {"missing-warning"} ELSE {}) \cup (IF seen \ want # {} THEN {"false-warning"} ELSE {})
       \cup (IF r.returned /\ (Len(r.gaps) # Len(G) \/ \E k \in 1..Len(G) : X!Abs(r.gaps[k] - G[k] * 1000000) > 20) THEN {"gaps"} ELSE {})
       \cup (IF r.returned /\ (Len(r.ratios) # Len(G)
                \/ \E k \in 2..Len(G) : X!Abs(r.ratios[k] * G[k - 1] - G[k] * 1000000) > 20 * G[k - 1]) THEN {"ratios"} ELSE {})
       \cup (IF r.level >= 1 /\ (Set(r.close) # {k + 1 : k \in {k \in 1..X!NG(r.s) : X!Gap(r.s, k) < r.half}}
                               \/ Set(r.far) # {k + 1 : k \in {k \in 2..X!NG(r.s) : r.den * X!Gap(r.s, k) > r.num * X!Gap(r.s, k - 1)}})
             THEN {"times"} ELSE {})
       \cup (IF r.returned # (r.always \/ r.level >= 1) THEN {"returns"} ELSE {})
Mono(r) ==
    LET sure == X!Ups(r.e)
        maybe == {k \in 1..Len(r.e) : r.e[k] >= 0}
    IN (IF sure # {} /\ r.level >= 0 /\ ~r.warned THEN {"missing-warning"} ELSE {})
       \cup (IF r.warned /\ (maybe = {} \/ r.level < 0) THEN {"false-warning"} ELSE {})
       \cup (IF r.warned /\ r.lo > 0 /\ sure # {} /\ ~(X!MinS(maybe) <= r.lo /\ r.lo <= X!MinS(sure)) THEN {"range"} ELSE {})
       \cup (IF r.warned /\ r.hi > 0 /\ sure # {} /\ ~(X!MaxS(sure) <= r.hi /\ r.hi <= X!MaxS(maybe)) THEN {"range"} ELSE {})
       \cup (IF r.level >= 0 /\ r.neg /\ ~r.negwarn THEN {"missing-warning"} ELSE {})
       \cup (IF r.negwarn /\ (~r.neg \/ r.level < 0) THEN {"false-warning"} ELSE {})
       \cup (IF r.d1 > 200 \/ r.d2 > 2000 THEN {"derivative"} ELSE {})
Verdict(r) == CASE r.kind = "layout" -> Layout(r)
                [] r.kind = "direct" -> Direct(r)
                [] r.kind = "mono" -> Mono(r)
                [] r.kind = "fails" -> {"warning-is-error"}
=============================================================================
