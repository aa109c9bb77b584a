SPECIFICATION Spec
CONSTANTS RATE = 2
 CAP = 1
 MAXOPS = 3
 MAXLEN = 3
INVARIANTS TypeOK SegmentationIndependent PeerInSync RestoredCatchesUp HeapConsed
CHECK_DEADLOCK FALSE
