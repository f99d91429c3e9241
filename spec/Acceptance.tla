----------------------------- MODULE Acceptance -----------------------------
(* Whether recorded acceptances are as frequent and as independent as      *)
(* their recorded probabilities say.  r: [alphas, acc, group, proposals,   *)
(* transitions].                                                           *)
EXTENDS Stats

InGroup(r, g) == SelectSeq([i \in 1..Len(r.alphas) |-> <<r.alphas[i], r.acc[i], r.group[i]>>], LAMBDA t : t[3] = g)
CountAccepted(ts) == LET a == SelectSeq(ts, LAMBDA t : t[2]) IN Len(a)
AlphasOf(ts) == [i \in 1..Len(ts) |-> ts[i][1]]
Residuals(r) == [i \in 1..Len(r.alphas) |-> RSub(IF r.acc[i] THEN "1" ELSE "0", r.alphas[i])]
Variances(r) == [i \in 1..Len(r.alphas) |-> RMul(r.alphas[i], RSub("1", r.alphas[i]))]
AcceptanceClauses(r) ==
    LET n == Len(r.alphas)  d == Residuals(r)  v == Variances(r)
    IN << <<"one proposal is considered per transition", r.proposals = r.transitions>>,
          <<"acceptances are as frequent as their probabilities say",
            \A g \in { r.group[i] : i \in 1..Len(r.group) } : LET t == InGroup(r, g) IN Events(CountAccepted(t), AlphasOf(t))>>,
          <<"acceptances of successive transitions are independent",
            n > 50 => Within(VDot(SubSeq(d, 1, n-1), SubSeq(d, 2, n)), VDot(SubSeq(v, 1, n-1), SubSeq(v, 2, n)), "6")>> >>
=============================================================================
