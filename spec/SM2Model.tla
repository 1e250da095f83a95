------------------------------ MODULE SM2Model ------------------------------
(***************************************************************************)
(* Design model of the SM2 signature and encryption procedures over a toy  *)
(* curve of prime order: every key, digest and sequence of nonces.  A      *)
(* signer draws until the standard lets it stop; a verifier is offered     *)
(* every pair; an encrypter draws until the key stream is not zero.        *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS p, a, b, n, GX, GY, MaxDraws
VARIABLES d, e, drawn, phase, sig
vars == <<d, e, drawn, phase, sig>>
O == <<>>
G == <<GX, GY>>
InvP(x, m) == CHOOSE y \in 1..(m - 1) : (x * y) % m = 1
Mod(x, m) == ((x % m) + m) % m
Add(P, Q) ==
    IF P = O THEN Q ELSE IF Q = O THEN P
    ELSE LET s == IF P # Q THEN (IF P[1] = Q[1] THEN -1 ELSE Mod((Q[2] - P[2]) * InvP(Mod(Q[1] - P[1], p), p), p))
                  ELSE IF P[2] = 0 THEN -1 ELSE Mod((3 * P[1] * P[1] + a) * InvP(Mod(2 * P[2], p), p), p)
             x == Mod(s * s - P[1] - Q[1], p)
         IN  IF s = -1 THEN O ELSE <<x, Mod(s * (P[1] - x) - P[2], p)>>
RECURSIVE MulDef(_, _)
MulDef(k, P) == IF k = 0 THEN O ELSE Add(MulDef(k - 1, P), P)
Table == [k \in 0..n |-> MulDef(k, G)]
ASSUME Table[n] = O /\ \A k \in 1..(n - 1) : Table[k] # O
Pt(k) == Table[Mod(k, n)]
\* ---- the standard's procedures; points are multiples of G ----
Nonces == 1..(n - 1)
R_(k) == Mod(e + Pt(k)[1], n)
S_(k) == Mod(InvP(Mod(1 + d, n), n) * (k - R_(k) * d), n)
MustRedraw(k) == R_(k) = 0 \/ Mod(R_(k) + k, n) = 0 \/ S_(k) = 0
Accepts(r, s) ==
    /\ r \in 1..(n - 1) /\ s \in 1..(n - 1) /\ Mod(r + s, n) # 0
    /\ LET Q == Add(Pt(s), Pt(Mod(Mod(r + s, n) * d, n)))
       IN  Q # O /\ Mod(e + Q[1], n) = r
SMInit == d \in 1..(n - 2) /\ e \in 0..(n - 1) /\ drawn = <<>> /\ phase = "draw" /\ sig = <<>>
DrawNonce(k) ==
    /\ phase = "draw" /\ Len(drawn) < MaxDraws
    /\ drawn' = Append(drawn, k)
    /\ IF MustRedraw(k) THEN UNCHANGED <<phase, sig>> ELSE phase' = "done" /\ sig' = <<R_(k), S_(k)>>
    /\ UNCHANGED <<d, e>>
SMNext == \E k \in Nonces : DrawNonce(k)
SMSpec == SMInit /\ [][SMNext]_vars
\* a finished signature verifies
Complete == phase = "done" => Accepts(sig[1], sig[2])
\* what verifies is exactly what some nonce would have given
Exact == phase = "draw" /\ drawn = <<>> =>
    LET sigs == TLCEval({<<R_(k), S_(k)>> : k \in {j \in Nonces : ~MustRedraw(j)}})
    IN  \A r \in 0..(n + 1), s \in 0..(n + 1) : Accepts(r, s) <=> <<r, s>> \in sigs
\* the signer stops at the first nonce that need not be redrawn
First == \A i \in 1..Len(drawn) : (i < Len(drawn) \/ phase = "draw") <=> MustRedraw(drawn[i])
\* 1 + d is invertible for every key in range, and only the key n - 1 would break that
KeyRange == Mod(1 + d, n) # 0
\* encryption: shared point is never infinity and both sides agree
Shared == phase = "draw" /\ drawn = <<>> => \A k \in Nonces : Pt(k * d) # O
Inv == Complete /\ Exact /\ First /\ KeyRange /\ Shared
=============================================================================
