------------------------------- MODULE BitPack -------------------------------
(* Packing blocks of B*N unsigned lanes (B = lane bits, N = lanes per vector) into bits*N lanes.
   State: raw block -> packed block -> unpacked block.  An observation r holds the block (raw), the frame of
   reference (ref, zero for plain packing), the unpacked block (un), whether any access left the raw block of B*N lanes
   or the packed block of bits*N lanes (fault: guard pages; kept: bytes around all blocks and the inputs unchanged). *)
EXTENDS Words
B(r) == IF r.t = "u8" THEN 8 ELSE IF r.t = "u16" THEN 16 ELSE IF r.t = "u32" THEN 32 ELSE 64
Fits(w, bits) == \A b \in 1..Len(w) : w[b] < (IF b * 8 <= bits THEN 256 ELSE IF (b - 1) * 8 >= bits THEN 1 ELSE 2 ^ (bits % 8))
\* The caller's obligation: every value minus the frame of reference fits in `bits` bits.
Legal(r) == /\ Len(r.raw) = B(r) * r.n /\ r.bits \in 1..B(r)
            /\ \A i \in 1..Len(r.raw) : Fits(SubW(r.raw[i], r.ref[1]), r.bits)
Ok(r) == Legal(r) /\ r.fault = 0 /\ r.kept = 1 /\ r.un = r.raw
=============================================================================
