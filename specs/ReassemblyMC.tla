--------------------------- MODULE ReassemblyMC ---------------------------
(* Design check: however a stream is cut, the delivered frames are a       *)
(* prefix of the sent ones, and all of them once every byte has arrived;   *)
(* an oversized prefix costs what is buffered then, and nothing that       *)
(* starts in later data.                                                   *)
EXTENDS Reassembly, SequencesExt, FiniteSets, TLC

CONSTANTS MaxFrames, MaxLen, MaxSize, Bytes

VARIABLES sent, bad, left, st, out, lost
vars == <<sent, bad, left, st, out, lost>>

Frames == UNION {[1..n -> Bytes] : n \in 0..MaxLen}
SeqsOf(S, n) == UNION {[1..k -> S] : k \in 0..n}

(* bad = k > 0: an oversized prefix stands before frame k *)
Stream(fs, k) == IF k = 0 THEN Wire(fs)
                 ELSE Wire(SubSeq(fs, 1, k - 1)) \o Prefix(MaxSize + 1) \o Wire(From(fs, k))

Init == /\ sent \in SeqsOf(Frames, MaxFrames)
        /\ bad \in 0..Len(sent)
        /\ left = Stream(sent, bad)
        /\ st = Fresh /\ out = <<>> /\ lost = FALSE

Chunk(n) == LET r == Feed(st, SubSeq(left, 1, n), MaxSize)
            IN /\ left' = From(left, n + 1)
               /\ st' = r.st
               /\ out' = out \o r.out
               /\ lost' = (lost \/ (bad # 0 /\ Len(Wire(From(sent, bad))) >= Len(left')))
               /\ UNCHANGED <<sent, bad>>
Next == \E n \in 1..Len(left) : Chunk(n)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

InOrder == bad = 0 => IsPrefix(out, sent)
Complete == (left = <<>> /\ bad = 0) => (out = sent /\ st = Fresh)
NothingFromOversized == (bad # 0 /\ ~lost) => IsPrefix(out, SubSeq(sent, 1, bad - 1))
NeverTooLong == \A i \in 1..Len(out) : Len(out[i]) <= MaxSize
Waiting == Len(st.buf) < IF st.need = -1 THEN W ELSE st.need
Delivered == <>(left = <<>>)
=============================================================================
