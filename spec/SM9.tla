-------------------------------- MODULE SM9 --------------------------------
(***************************************************************************)
(* GB/T 38635.2: SM9 signatures - master keys, user keys, signing and      *)
(* verification.  Hash functions and nonce draws are those of SM2.tla.     *)
(***************************************************************************)
EXTENDS SM9Field, SM2

N9Minus(k) == Pad(BSub(SM9N, <<k>>), 32)
\* H1 and H2: 40 bytes of H(tag || z || counter), to [1, n - 1]
RECURSIVE Ha(_, _, _, _)
Ha(h, tag, z, ct) == IF (ct - 1) * HashLen(h) >= 40 THEN <<>> ELSE HashOf(h, <<tag>> \o z \o IntBE(ct, 4)) \o Ha(h, tag, z, ct + 1)
Hn(h, tag, z) == Pad(BAdd(BMod(Take(Ha(h, tag, z, 1), 40), N9Minus(1)), BOne), 32)
H1(h, id, hid) == Hn(h, 1, id \o <<hid>>)
H2(h, msg, w) == Hn(h, 2, msg \o XBytes(w))

\* ---- keys ----
MasterOk(k) == ~BIsZero(k) /\ BLt(k, SM9N)
MasterPub(k) == SM9Mul2(k, SM9G2)
Pub9Ok(x, y) == InField2(x) /\ InField2(y) /\ OnTwist(<<XOfBytes(x), XOfBytes(y)>>)
\* the user key, or NoKey when the identity has none under this master key
NoKey == <<-1>>
UserKey(h, k, id, hid) ==
    LET t == MAdd(H1(h, id, hid), k, SM9N)
    IN  IF BIsZero(t) THEN NoKey ELSE SM9Mul1(MMul(k, MInv(t, SM9N), SM9N), SM9G1)

\* ---- signatures ----
Sign9With(h, g, d, msg, form, r) ==
    LET w == TLCEval(XPow(g, r))
        hh == H2(h, msg, w)
        l == MSub(r, hh, SM9N)
    IN  IF BIsZero(l) THEN Redo ELSE hh \o EncPoint(form, SM9Mul1(l, d))
Sig9Len(form) == IF form = "c" THEN 65 ELSE 97
\* the point of a signature, or NoPoint
SigPoint(sig) ==
    IF Len(sig) < 33 THEN NoPoint
    ELSE LET s == Drop(sig, 32)
         IN  IF EncLen(SM9Curve, s[1]) # Len(s) THEN NoPoint ELSE DecPoint(SM9Curve, s)
Verify9(h, ppub, g, id, hid, msg, sig) ==
    LET S == SigPoint(sig)
        hs == Take(sig, 32)
        \* an identity without a user key has no signatures
        P == XPtAdd(SM9Mul2(H1(h, id, hid), SM9G2), ppub)
    IN  IF S = NoPoint THEN FALSE
        ELSE IF BIsZero(hs) \/ ~BLt(hs, SM9N) \/ P = <<>> THEN FALSE
        ELSE H2(h, msg, XMul(Pairing(S, P), XPow(g, hs))) = hs
=============================================================================
