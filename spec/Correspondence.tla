--------------------------- MODULE Correspondence ---------------------------
(* Matching of two edge maps: one-to-one, within a tolerance, of least total  *)
(* cost.  The solver is a state machine that takes the matchable pixels of    *)
(* the first map one by one and keeps, for every set of second-map pixels     *)
(* that may be used, the least objective reached so far.                      *)
EXTENDS Grid

(* ---------------------------------------------------------------- geometry *)
(* tolerance = (tn/td) * diagonal; all comparisons in integers                *)
Within(d2, tn, td, h, w) == d2 <= (tn * tn * (h * h + w * w)) \div (td * td)

Eligible(A, B, tn, td, h, w) ==
  {e \in A \X B : Within(D2(e[1], e[2]), tn, td, h, w)}

Matchable1(E) == {e[1] : e \in E}
Matchable2(E) == {e[2] : e \in E}

(* distance in 1/100 pixel, rounded; distance in 1/1000 pixel, cut *)
(* square roots digit by digit: r is the root so far, x what is left over      *)
RECURSIVE RootDigits(_, _, _)
RootDigits(r, x, n) == IF n = 0 THEN r
                       ELSE LET d == CHOOSE d \in 0..9 : (20 * r + d) * d <= 100 * x /\ (d = 9 \/ (20 * r + d + 1) * (d + 1) > 100 * x)
                            IN RootDigits(10 * r + d, 100 * x - (20 * r + d) * d, n - 1)
RootDec(x, n) == LET r == Isqrt(x) IN RootDigits(r, x - r * r, n)
Centi(d2) == (RootDec(4 * d2, 2) + 1) \div 2
Milli(d2) == RootDec(d2, 3)

(* the outlier cost in 1/1000 pixel: of * tn/td * diagonal (of in halves: of2/2) *)
Diag(h, w) == RootDec(h * h + w * w, 3)                   \* 1/1000 pixel
OutlierMilli(of2, tn, td, h, w) == (of2 * tn * Diag(h, w)) \div (2 * td)
OutlierCenti(of2, tn, td, h, w) ==                       \* rounded up
  (of2 * tn * Diag(h, w) + 20 * td - 1) \div (20 * td)

IsMatching(M, E) ==
  /\ M \subseteq E
  /\ \A e, f \in M : e # f => e[1] # f[1] /\ e[2] # f[2]

(* objective of a matching: distances minus the outlier cost saved per pair *)
Objective(M, ow) == SumOver(M, [e \in M |-> Centi(D2(e[1], e[2])) - ow])
Distance(M) == SumOver(M, [e \in M |-> Centi(D2(e[1], e[2]))])

(* a set of pixels touching every eligible pair bounds every matching         *)
IsCover(C1, C2, E) == \A e \in E : e[1] \in C1 \/ e[2] \in C2

(* ------------------------------------------------------------------ solver *)
VARIABLES elig,    \* eligible pairs
          todo,    \* matchable pixels of the first map still to be considered
          right,   \* matchable pixels of the second map
          ow,      \* outlier cost in 1/100 pixel
          best     \* best[S]: least objective using only pixels of S so far

corrVars == <<elig, todo, right, ow, best>>

CorrStart(A, B, of2, tn, td, h, w) ==
  LET E == Eligible(A, B, tn, td, h, w) IN
  /\ elig = E
  /\ todo = Matchable1(E)
  /\ right = Matchable2(E)
  /\ ow = OutlierCenti(of2, tn, td, h, w)
  /\ best = [S \in SUBSET Matchable2(E) |-> 0]

MinOf(X) == CHOOSE m \in X : \A n \in X : m <= n

Consider(p) ==
  /\ p \in todo
  /\ todo' = todo \ {p}
  /\ LET Q == {q \in right : <<p, q>> \in elig}
         cost == [q \in Q |-> Centi(D2(p, q)) - ow]
     IN best' = [S \in SUBSET right |->
                   MinOf({best[S]} \cup {best[S \ {q}] + cost[q] : q \in Q \cap S})]
  /\ UNCHANGED <<elig, right, ow>>

CorrNext == \E p \in todo : Consider(p)
Solved == todo = {}
Optimum == best[right]

(* ----------------------------------------------- maximum cardinality by      *)
(* augmenting paths, for the modules that only need the number of pairs        *)
(* own: partner of every right pixel (<<>> when free); a search result is      *)
(* <<found?, own, visited>>                                                    *)
RECURSIVE TryAll(_, _, _, _)
RECURSIVE Search(_, _, _)
(* try the candidate partners Q of p one after the other *)
TryAll(p, Q, st, adj) ==
  LET free == {q \in Q : q \notin st[3]} IN
  IF free = {} THEN <<FALSE, st[2], st[3]>>
  ELSE LET q == IF \E c \in free : st[2][c] = <<>> THEN CHOOSE c \in free : st[2][c] = <<>>
                ELSE CHOOSE c \in free : TRUE
       IN IF st[2][q] = <<>> THEN <<TRUE, [st[2] EXCEPT ![q] = p], st[3]>>
          ELSE With(Search(st[2][q], <<FALSE, st[2], st[3] \cup {q}>>, adj),
                    LAMBDA r : IF r[1] THEN <<TRUE, [r[2] EXCEPT ![q] = p], r[3]>>
                               ELSE TryAll(p, Q, r, adj))
Search(p, st, adj) == TryAll(p, adj[p], st, adj)

RECURSIVE MatchFrom(_, _, _)
MatchFrom(rest, own, adj) ==
  IF rest = {} THEN own
  ELSE LET p == CHOOSE t \in rest : TRUE
       IN With(Search(p, <<FALSE, own, {}>>, adj), LAMBDA r : MatchFrom(rest \ {p}, r[2], adj))

MaxMatching(E0) == With(E0, LAMBDA E :
  With([p \in Matchable1(E) |-> TLCEval({e[2] : e \in {f \in E : f[1] = p}})], LAMBDA adj :
    With(MatchFrom(Matchable1(E), [q \in Matchable2(E) |-> <<>>], adj), LAMBDA own :
      {<<own[q], q>> : q \in {x \in Matchable2(E) : own[x] # <<>>}})))
MaxPairs(E) == Cardinality(MaxMatching(E))
=============================================================================
