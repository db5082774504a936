----------------------------- MODULE DiskFault -----------------------------
(***************************************************************************)
(* Snapshots kept on a disk that may fail.  Each file is written in chunks *)
(* of steps through a buffer, and later read backwards, again in chunks.   *)
(* The environment may use up the disk's room, for all files or for one,   *)
(* and free it again, delete the directory between chunks, and shorten or  *)
(* delete a complete file.                                                 *)
(*                                                                         *)
(* The four Check constants are what an implementation may look at: the    *)
(* result of opening, writing, closing and reading.  With all of them a    *)
(* backward pass that finishes has read what was stored (NeverWrong), and  *)
(* nothing is reported without a fault (Quiet).  If snapshots are appended *)
(* (Appending) a loss always leaves the file short, and checking the reads *)
(* is enough; if they are written to their own place a loss can leave a    *)
(* hole, and writing and closing have to be checked as well.  The controls *)
(* omit one check each, and TLC finds the run that ends with wrong         *)
(* snapshots.                                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Files, Nt, Chunk, BufLen, Cap, MaxFaults, Appending, CheckOpen, CheckWrite, CheckClose, CheckRead
VARIABLES ph,      \* "fwd", "ready", "bwd", "done", "raised"
          t,       \* file -> next step
          at,      \* file -> step at which it was opened, -1 while closed
          buf,     \* file -> what is written but not yet on the disk
          file,    \* file -> steps on the disk, or Gone
          room,    \* file -> steps the disk still takes of it
          dir, read, faults
vars == <<ph, t, at, buf, file, room, dir, read, faults>>
Gone == <<-1>>
Min2(a, b) == IF a < b THEN a ELSE b
Init == /\ ph = "fwd" /\ t = [f \in Files |-> 0] /\ at = [f \in Files |-> -1]
        /\ buf = [f \in Files |-> <<>>] /\ file = [f \in Files |-> <<>>]
        /\ room = [f \in Files |-> Cap] /\ dir = TRUE /\ read = [f \in Files |-> <<>>] /\ faults = 0

\* ------------------------------------------------------------ environment
Fault == faults < MaxFaults /\ faults' = faults + 1
Most == CHOOSE r \in {room[f] : f \in Files} : \A f \in Files : room[f] <= r
Fill == Fault /\ (\/ \E r \in 0..(Most - 1) : room' = [f \in Files |-> Min2(room[f], r)]
                  \/ \E f \in Files : room[f] > 0 /\ room' = [room EXCEPT ![f] = 0]) /\ UNCHANGED <<ph, t, at, buf, file, dir, read>>
Free == (\E f \in Files : room[f] < Cap) /\ room' = [f \in Files |-> Cap] /\ UNCHANGED <<ph, t, at, buf, file, dir, read, faults>>
Closed == \A f \in Files : at[f] < 0
RemoveDir == /\ Fault /\ Closed /\ dir /\ dir' = FALSE
             /\ file' = [f \in Files |-> Gone] /\ UNCHANGED <<ph, t, at, buf, room, read>>
Shorten(f) == /\ Fault /\ Closed /\ ph \in {"ready", "bwd"} /\ file[f] # Gone /\ file[f] # <<>>
              /\ \E n \in 0..(Len(file[f]) - 1) : file' = [file EXCEPT ![f] = SubSeq(@, 1, n)]
              /\ UNCHANGED <<ph, t, at, buf, room, dir, read>>

\* ------------------------------------------------------------ forward pass
Flush(f) == LET b == buf[f]
                k == Min2(Len(b), room[f])
            IN  [lost |-> k < Len(b) \/ file[f] = Gone, room |-> [room EXCEPT ![f] = @ - k],
                 file |-> IF file[f] = Gone THEN Gone
                          ELSE IF Appending \/ k = 0 THEN file[f] \o SubSeq(b, 1, k)
                          ELSE [i \in 1..(b[1] + k) |-> IF i > b[1] THEN b[i - b[1]]
                                                       ELSE IF i <= Len(file[f]) THEN file[f][i] ELSE -3]]
Raise == ph' = "raised" /\ UNCHANGED <<t, at, buf, file, room, dir, read, faults>>
OpenW(f) == /\ ph = "fwd" /\ t[f] < Nt /\ at[f] < 0
            /\ IF ~dir /\ CheckOpen THEN Raise
               ELSE /\ at' = [at EXCEPT ![f] = t[f]]
                    /\ UNCHANGED <<ph, t, buf, file, room, dir, read, faults>>
Write(f) == /\ ph = "fwd" /\ at[f] >= 0 /\ Len(buf[f]) < BufLen
            /\ t[f] < Nt /\ (t[f] % Chunk # 0 \/ t[f] = at[f])
            /\ buf' = [buf EXCEPT ![f] = Append(@, t[f])] /\ t' = [t EXCEPT ![f] = @ + 1]
            /\ UNCHANGED <<ph, at, file, room, dir, read, faults>>
\* the buffer is full: written as part of the next write
Spill(f) == /\ ph = "fwd" /\ at[f] >= 0 /\ Len(buf[f]) = BufLen
            /\ IF Flush(f).lost /\ CheckWrite THEN Raise
               ELSE /\ file' = [file EXCEPT ![f] = Flush(f).file] /\ room' = Flush(f).room
                    /\ buf' = [buf EXCEPT ![f] = <<>>]
                    /\ UNCHANGED <<ph, t, at, dir, read, faults>>
CloseW(f) == /\ ph = "fwd" /\ at[f] >= 0 /\ t[f] > at[f] /\ (t[f] % Chunk = 0 \/ t[f] = Nt) /\ Len(buf[f]) < BufLen
             /\ IF Flush(f).lost /\ buf[f] # <<>> /\ CheckClose THEN Raise
                ELSE /\ file' = [file EXCEPT ![f] = Flush(f).file] /\ room' = Flush(f).room
                     /\ buf' = [buf EXCEPT ![f] = <<>>] /\ at' = [at EXCEPT ![f] = -1]
                     /\ UNCHANGED <<ph, t, dir, read, faults>>
Ready == /\ ph = "fwd" /\ Closed /\ \A f \in Files : t[f] = Nt
         /\ ph' = "ready" /\ UNCHANGED <<t, at, buf, file, room, dir, read, faults>>
\* ------------------------------------------------------------ backward pass
Back == ph = "ready" /\ ph' = "bwd" /\ UNCHANGED <<t, at, buf, file, room, dir, read, faults>>
OpenR(f) == /\ ph = "bwd" /\ t[f] > 0 /\ at[f] < 0
            /\ IF (~dir \/ file[f] = Gone) /\ CheckOpen THEN Raise
               ELSE /\ at' = [at EXCEPT ![f] = t[f]]
                    /\ UNCHANGED <<ph, t, buf, file, room, dir, read, faults>>
ReadS(f) == /\ ph = "bwd" /\ at[f] >= 0 /\ t[f] > 0
            /\ LET short == file[f] = Gone \/ t[f] > Len(file[f])
               IN  IF short /\ CheckRead THEN Raise
                   ELSE /\ read' = [read EXCEPT ![f] = Append(@, IF short THEN -2 ELSE file[f][t[f]])]
                        /\ t' = [t EXCEPT ![f] = @ - 1]
                        \* closed at the end of each chunk
                        /\ at' = [at EXCEPT ![f] = IF (Nt - t[f] + 1) % Chunk = 0 \/ t[f] = 1 THEN -1 ELSE @]
                        /\ UNCHANGED <<ph, buf, file, room, dir, faults>>
Done == /\ ph = "bwd" /\ \A f \in Files : t[f] = 0
        /\ ph' = "done" /\ UNCHANGED <<t, at, buf, file, room, dir, read, faults>>
System == Ready \/ Back \/ Done \/ \E f \in Files : OpenW(f) \/ Write(f) \/ Spill(f) \/ CloseW(f) \/ OpenR(f) \/ ReadS(f)
Next == System \/ Fill \/ Free \/ RemoveDir \/ \E f \in Files : Shorten(f)
Spec == Init /\ [][Next]_vars /\ WF_vars(System)

NeverWrong == ph = "done" => \A f \in Files : read[f] = [j \in 1..Nt |-> Nt - j]
Quiet == ph = "raised" => faults > 0
Ends == <>(ph \in {"done", "raised"})
=============================================================================
