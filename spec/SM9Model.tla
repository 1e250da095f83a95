------------------------------ MODULE SM9Model ------------------------------
(***************************************************************************)
(* Design model of the SM9 signature over bilinear groups of small prime   *)
(* order n, elements written as their logarithms: every master key,        *)
(* identity, nonce sequence, and every hash function from GT to 1..n-1     *)
(* (the message only selects the function).  What verifies is what is      *)
(* signed, but for the nonce 0 a signer never draws.                       *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, TLC
CONSTANTS n, MaxDraws
VARIABLES ks, h1, H, drawn, sig
vars == <<ks, h1, H, drawn, sig>>
M(x) == ((x % n) + n) % n
InvN(x) == CHOOSE y \in 1..(n - 1) : M(x * y) = 1
HasKey == M(h1 + ks) # 0
D == M(ks * InvN(M(h1 + ks)))
\* pairing of logarithms
E(a, b) == M(a * b)
W(r) == M(r * E(1, ks))
MustRedraw(r) == M(r - H[W(r)]) = 0
Sig(r) == <<H[W(r)], M((r - H[W(r)]) * D)>>
\* the point of a signature cannot be infinity; an identity without a key has no signatures
Accepts(h, S) == /\ h \in 1..(n - 1) /\ S # 0 /\ HasKey
                 /\ H[M(E(S, M(h1 + ks)) + h * E(1, ks))] = h
MInit_ == /\ ks \in 1..(n - 1) /\ h1 \in 1..(n - 1) /\ H \in [0..(n - 1) -> 1..(n - 1)]
          /\ drawn = <<>> /\ sig = <<>>
MNext_ == /\ HasKey /\ sig = <<>> /\ Len(drawn) < MaxDraws
          /\ \E r \in 1..(n - 1) : /\ drawn' = Append(drawn, r)
                                   /\ sig' = IF MustRedraw(r) THEN <<>> ELSE Sig(r)
          /\ UNCHANGED <<ks, h1, H>>
MSpec == MInit_ /\ [][MNext_]_vars
Complete == sig # <<>> => Accepts(sig[1], sig[2])
Exact == drawn = <<>> /\ HasKey =>
    LET made == {Sig(r) : r \in {x \in 0..(n - 1) : ~MustRedraw(x)}}
    IN  \A h \in 0..n, S \in 0..(n - 1) : Accepts(h, S) <=> <<h, S>> \in made
\* the user key satisfies the pairing equation that makes verification work
KeyEquation == HasKey => E(D, M(h1 + ks)) = E(1, ks)
First == \A i \in 1..Len(drawn) : (i < Len(drawn) \/ sig = <<>>) <=> MustRedraw(drawn[i])
Inv == Complete /\ Exact /\ KeyEquation /\ First
=============================================================================
