------------------------------- MODULE Accel -------------------------------
(* What a user may observe of the tensor codec while its just-in-time compiler is missing or fails.
   A history is a sequence of codec calls, or two calls of two threads; every call has an answer that depends on its input
   alone (the stream written, the scene loaded, or the error the input deserves).  The compiler's faults, whatever and
   whenever they are, show in no answer; only an interrupt of the user passes through, and leaves nothing behind. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Writers == {"save", "save_compressed", "plywrite_gpu"}
Readers == {"load", "plyread_gpu"}
Good == {"s1", "s257", "s512"}
Bad == {"badq", "badsh0", "badop", "badsc", "badbool", "badcx"}
Ops == (Writers \X (Good \cup Bad)) \cup (Readers \X (Good \cup {"missing"}))
\* answer ref, what was seen, whether the user's interrupt was raised inside
Allowed(ref, out, interrupted) == IF interrupted THEN out = "KeyboardInterrupt" ELSE out = ref
=============================================================================
