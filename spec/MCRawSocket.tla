----------------------------- MODULE MCRawSocket -------------------------------
(* Two sides shake hands, and one sends frames to the other through a stream  *)
(* that is read as it comes.  Each knows of the other only what the handshake *)
(* said.  A stream is a sequence of bytes and bodies of frames.               *)
EXTENDS RawSocketProps, Json

CONSTANTS Protocols, Sizes, Lengths, MaxFrames

VARIABLES
    mine,       \* of each side: its serializer and the limit it has
    heard,      \* of each side: what it has heard of the other
    stream,     \* from side 1 to side 2
    sent, got
vars == <<mine, heard, stream, sent, got>>

Init ==
    /\ mine \in [1..2 -> [p : Protocols, size : Sizes]]
    /\ mine[1].p = 1                      \* the sender's own announcement matters little
    /\ heard = [s \in 1..2 |-> Refused] /\ stream = <<>> /\ sent = <<>> /\ got = <<>>

Other(s) == 3 - s
Shake(s) ==
    /\ heard[Other(s)].k = "refused"
    /\ LET a == Announce(mine[s].p, mine[s].size)
       IN a.k = "ok" /\ heard' = [heard EXCEPT ![Other(s)] = Heard(a.b)]
    /\ UNCHANGED <<mine, stream, sent, got>>
Send(kind, len) ==
    /\ heard[1].k = "ok" /\ heard[2].k = "ok" /\ Len(sent) < MaxFrames
    /\ len <= heard[1].size
    /\ LET h == Header(kind, len)
       IN h.k = "ok" /\ stream' = stream \o h.b \o (IF len = 0 THEN <<>> ELSE <<[body |-> Len(sent) + 1, len |-> len]>>)
    /\ sent' = Append(sent, [kind |-> kind, len |-> len, body |-> IF len = 0 THEN 0 ELSE Len(sent) + 1])
    /\ UNCHANGED <<mine, heard, got>>
\* the reader takes a header and then as many bytes as it says
Read ==
    /\ Len(stream) >= 4
    /\ LET f == Frame(SubSeq(stream, 1, 4))
       IN IF f.len = 0
          THEN got' = Append(got, [kind |-> f.kind, len |-> 0, body |-> 0]) /\ stream' = SubSeq(stream, 5, Len(stream))
          ELSE /\ Len(stream) >= 5
               /\ got' = Append(got, [kind |-> f.kind, len |-> f.len, body |-> stream[5].body])
               /\ stream' = SubSeq(stream, 6, Len(stream))
    /\ UNCHANGED <<mine, heard, sent>>
Next == (\E s \in 1..2 : Shake(s)) \/ (\E kind \in FrameTypes, len \in Lengths : Send(kind, len)) \/ Read
Spec == Init /\ [][Next]_vars

\* what is read is what was sent
InOrder == SubSeq(sent, 1, Len(got)) = got
Complete == stream = <<>> => got = sent
\* no frame is larger than its reader takes
NoneTooLarge == \A i \in DOMAIN sent : sent[i].len <= mine[2].size
SameSerializer == \A s \in 1..2 : heard[s].k = "ok" => heard[s].p = mine[Other(s)].p
\* the formats have the properties, and lose nothing
Formats == sent = <<>> =>
    /\ \A s \in 1..2 :
        LET a == Announce(mine[s].p, mine[s].size)
        IN /\ mine[s].size < TwoTop => P28([op |-> "announce", p |-> mine[s].p, size |-> mine[s].size, r |-> a])
           /\ a.k = "ok" => P28([op |-> "hear", b |-> a.b, r |-> Heard(a.b)])
                            /\ P28([op |-> "meet", p |-> mine[s].p, size |-> mine[s].size, r |-> Heard(a.b)])
    /\ \A len \in Lengths, kind \in FrameTypes :
        LET h == Header(kind, len)
        IN /\ P29([op |-> "head", kind |-> kind, len |-> len, r |-> h])
           /\ h.k = "ok" => P29([op |-> "unhead", b |-> h.b, r |-> Frame(h.b)]) /\ Frame(h.b) = [k |-> "ok", kind |-> kind, len |-> len]

\* the verdict objects exactly to what breaks a property
Fine(e) == ((Judge(e) = {}) <=> (Broke(e) = {})) \/ (PrintT(<<"MM", e, Judge(e), Broke(e), Want(e)>>) /\ FALSE)
SomeBytes == {0, 1, 127, 128, 240, 255}
Limits == {256, 512, 1024, 16777216, 33554432}
VerdictRight ==
    (heard[1].k = "refused" /\ heard[2].k = "refused") =>
        LET p == mine[2].p
            size == mine[2].size
            Replies == {Refused, [k |-> "hang"]} \cup {[k |-> "ok", b |-> <<m, x, y, z>>] :
                m \in {0, 1, 127}, y \in {0, 1}, z \in {0, 1},
                x \in {n * 16 + q : n \in {0, 1, 14, 15} \cup ({Log2(size) - 9, Log2(size) - 10} \cap (0..15)), q \in {0, p}}}
            Sizes2 == {[k |-> "ok", p |-> q, size |-> s] : q \in {0, p, 16}, s \in Limits \cup {size, Pow2(Log2(size))}} \cup {Refused}
        IN /\ \A r \in Replies : Fine([op |-> "announce", p |-> p, size |-> size, r |-> r])
           /\ \A r \in Replies : Fine([op |-> "announces", p |-> p, lo |-> IF size > 512 THEN size - 1 ELSE 512, hi |-> size, r |-> r]) \/ size < 512 \/ size >= TwoTop
           /\ \A r \in Sizes2 : Fine([op |-> "meet", p |-> p, size |-> size, r |-> r])
           /\ \A x \in SomeBytes, y \in {0, 1}, z \in {0, 1}, m \in {0, 127} : \A r \in Sizes2 :
                \A b \in {<<m, x, y, z>>, <<m, x, y>>, <<m, x, y, z, 0>>} : Fine([op |-> "hear", b |-> b, r |-> r])
           /\ \A len \in Lengths \cup {-1}, kind \in FrameTypes :
                /\ \A r \in {Refused} \cup {[k |-> "ok", b |-> b] : b \in {<<a, x, y, z>> : a \in {0, 1}, x \in SomeBytes, y \in SomeBytes, z \in SomeBytes}} :
                        Fine([op |-> "head", kind |-> kind, len |-> len, r |-> r])
                /\ \A r \in {Refused} \cup {[k |-> "ok", kind |-> a, len |-> n] : a \in 0..2, n \in Lengths} :
                        Fine([op |-> "frame", kind |-> kind, len |-> len, r |-> r])
           /\ \A b \in {<<a, x, y, z>> : a \in {0, 2}, x \in SomeBytes, y \in {0, 255}, z \in SomeBytes} :
                \A r \in {Refused} \cup {[k |-> "ok", kind |-> a, len |-> n] : a \in {0, 2}, n \in {0, 1, Number(b), 65535}} :
                        Fine([op |-> "unhead", b |-> b, r |-> r])
Emit ==
    \/ sent' = sent /\ got' # got
    \/ PrintT("A " \o ToJson(
          IF sent' # sent THEN [op |-> "frame", kind |-> sent'[Len(sent')].kind, len |-> sent'[Len(sent')].len]
          ELSE LET s == CHOOSE s \in 1..2 : heard'[s] # heard[s] IN [op |-> "meet", p |-> mine[Other(s)].p, size |-> mine[Other(s)].size]))
=============================================================================
