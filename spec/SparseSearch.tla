---------------------------- MODULE SparseSearch ----------------------------
(* The search through a buffer that is too large to write down (see Sparse).*)
(* No anchor begins with the filler, and Base is a multiple of Chunk.       *)
(* What an anchor's entry point says about itself never reaches further     *)
(* than Reach bytes, so the rules of EntryPoint are applied to that window. *)
(* MC_SparseSearch shows that this is the search of EntryPoint.             *)
EXTENDS Sparse
CONSTANTS Chunk, Formats, Reach

AnchorThere(buf, o, f) ==
  /\ NotAfter(Plus(o, Len(f.anchor)), buf.size)
  /\ Bytes2(buf, o, Len(f.anchor)) = f.anchor
Heads(buf) ==
  {o \in UNION {{Plus(buf.parts[i].at, j) : j \in 0..(Len(buf.parts[i].b) - 1)} : i \in DOMAIN buf.parts} :
     o[2] % Chunk = 0 /\ \E i \in DOMAIN Formats : AnchorThere(buf, o, Formats[i])}
(* the bytes from the first anchor on; none when there is no anchor *)
Window(buf) ==
  IF Heads(buf) = {} THEN <<>>
  ELSE LET o == First(Heads(buf))
           left == Gap(o, buf.size)
       IN Bytes2(buf, o, IF left < Reach THEN left ELSE Reach)
=============================================================================
