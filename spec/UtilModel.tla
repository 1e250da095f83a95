----------------------------- MODULE UtilModel -----------------------------
(***************************************************************************)
(* Design models of the byte utilities.  XOR: a call works through the     *)
(* operands in chunks of any of the widths, each read whole before it is   *)
(* written, with every aliasing of output and inputs; memory is one array  *)
(* so that a write outside the output is visible.  Endian access: loads    *)
(* and stores are inverse for every byte string.  Dump: the text printed   *)
(* byte by byte is the text of the whole.                                  *)
(***************************************************************************)
EXTENDS ByteUtils
CONSTANTS MaxSize, Widths, Lines
VARIABLES mem, start, size, po, p1, p2, done, pr
vars == <<mem, start, size, po, p1, p2, done, pr>>

Gap == 1
Place(n, k) == Gap + k * (n + Gap) + 1
Value(i) == (73 * i + 19 * i * i + 5) % 256
UMInit ==
    /\ size \in 0..MaxSize
    /\ \E al \in 0..4 :
          /\ p1 = Place(size, 0)
          /\ p2 = IF al >= 3 THEN p1 ELSE Place(size, 1)
          /\ po = CASE al \in {1, 4} -> p1 [] al = 2 -> p2 [] OTHER -> Place(size, 2)
    /\ mem = [i \in 1..(3 * (size + Gap) + Gap) |-> Value(i)]
    /\ start = mem /\ done = 0 /\ pr = [d |-> <<>>, w |-> 1, o |-> <<>>]
Chunk(w) ==
    /\ done + w <= size
    /\ LET r == XorB(SubSeq(mem, p1 + done, p1 + done + w - 1), SubSeq(mem, p2 + done, p2 + done + w - 1))
       IN  mem' = [i \in 1..Len(mem) |-> IF i >= po + done /\ i < po + done + w THEN r[i - po - done + 1] ELSE mem[i]]
    /\ done' = done + w
    /\ UNCHANGED <<start, size, po, p1, p2, pr>>
\* print the next item of a dump, when no xor is under way
PrintW(w, b) ==
    /\ done = 0 /\ size = 0 /\ po = p1 /\ Len(pr.d) < MaxSize /\ (pr.d = <<>> \/ pr.w = w)
    /\ LET d == Append(pr.d, b) IN pr' = [d |-> d, w |-> w, o |-> pr.o \o (IF Len(pr.d) > 0 /\ Len(pr.d) % w = 0 THEN NL ELSE <<>>) \o ItemText("%02x", b) \o <<32>>]
    /\ UNCHANGED <<mem, start, size, po, p1, p2, done>>
UMNext == (\E w \in Widths : Chunk(w)) \/ (\E w \in Lines, b \in {0, 65, 255} : PrintW(w, b))
UMSpec == UMInit /\ [][UMNext]_vars
In1(k) == start[p1 + k]
In2(k) == start[p2 + k]
XorOK == \A i \in 1..Len(mem) :
    mem[i] = IF i >= po /\ i < po + done THEN XorB(<<In1(i - po)>>, <<In2(i - po)>>)[1] ELSE start[i]
EndianOK == LET s == SubSeq(start, 1, 1 + (size % 8))
            IN  \A e \in {"le", "be"} : Store(e, Load(e, s)) = s /\ Load(e, Store(e, s)) = s
DumpOK == DumpText([in |-> pr.d, w |-> pr.w, fmt |-> "%02x", ascii |-> FALSE, sep |-> <<32>>, prefix |-> <<>>, tail |-> <<>>])
          = pr.o \o (LET k == Len(pr.d) IN IF k > pr.w /\ k % pr.w # 0 THEN Fill(32, 3 * (pr.w - (k % pr.w))) ELSE <<>>)
Inv == XorOK /\ EndianOK /\ DumpOK
=============================================================================
