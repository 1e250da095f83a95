----------------------------- MODULE ByteUtils -----------------------------
(* Byte utilities: endian access and the text of a memory dump. *)
EXTENDS Bytes

\* the value of the bytes at a place, most significant first
Load(endian, bytes) == IF endian = "le" THEN RevB(bytes) ELSE bytes
Store(endian, val) == IF endian = "le" THEN RevB(val) ELSE val

\* ---- text ----
\* digits in a base, at least one, least significant last
RECURSIVE Digits(_, _)
Digits(x, base) == IF x < base THEN <<x>> ELSE Append(Digits(x \div base, base), x % base)
DigitChar(upper) == [d \in 0..15 |-> IF d < 10 THEN 48 + d ELSE (IF upper THEN 65 ELSE 97) + d - 10]
Text(x, base, upper) == LET ds == Digits(x, base) IN [i \in 1..Len(ds) |-> DigitChar(upper)[ds[i]]]
PadLeft(s, ch, n) == IF Len(s) >= n THEN s ELSE Fill(ch, n - Len(s)) \o s
\* the printf formats the traces use
ItemText(fmt, b) ==
    CASE fmt = "%02x" -> PadLeft(Text(b, 16, FALSE), 48, 2)
      [] fmt = "%02X" -> PadLeft(Text(b, 16, TRUE), 48, 2)
      [] fmt = "%x" -> Text(b, 16, FALSE)
      [] fmt = "%d" -> Text(b, 10, FALSE)
      [] fmt = "%3u" -> PadLeft(Text(b, 10, FALSE), 32, 3)
      [] fmt = "%03o" -> PadLeft(Text(b, 8, FALSE), 48, 3)
      [] fmt = "0x%02x" -> <<48, 120>> \o PadLeft(Text(b, 16, FALSE), 48, 2)
NL == <<10>>
Blank3 == <<32, 32, 32>>
Printable(b) == b >= 32 /\ b <= 126
AsciiCol(bs) == Blank3 \o [i \in 1..Len(bs) |-> IF Printable(bs[i]) THEN bs[i] ELSE 46]
Items(fmt, sep, bs) == FlattenSeq([i \in 1..Len(bs) |-> ItemText(fmt, bs[i]) \o sep])

\* the dump: whole lines of w items, then the rest padded to the line above
DumpText(e) ==
    LET n == Len(e.in)
        full == n \div e.w
        rest == n % e.w
        line(i) == Items(e.fmt, e.sep, SubSeq(e.in, (i - 1) * e.w + 1, i * e.w))
        asc(bs) == IF e.ascii THEN AsciiCol(bs) ELSE <<>>
        whole == FlattenSeq([i \in 1..full |->
                    line(i) \o asc(SubSeq(e.in, (i - 1) * e.w + 1, i * e.w)) \o (IF i * e.w < n THEN NL ELSE <<>>)])
        last == LET bs == SubSeq(e.in, full * e.w + 1, n)
                    txt == Items(e.fmt, e.sep, bs)
                    width == IF full > 0 THEN Len(line(full)) ELSE 0
                IN  txt \o (IF width > Len(txt) THEN Fill(32, width - Len(txt)) ELSE <<>>) \o asc(bs)
    IN  e.prefix \o whole \o (IF rest > 0 THEN last ELSE <<>>) \o e.tail
=============================================================================
