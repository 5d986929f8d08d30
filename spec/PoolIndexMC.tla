---- MODULE PoolIndexMC ----
EXTENDS PoolIndex
\* digits of 2 bits: pools 0 and 1 twice
RevsA == <<0, 3, 3, 4, 7, 15>>
RevsB == <<1, 8, 9, 5, 13, 5>>
\* real digits: 16 buckets, 8 pools; 0 and 8 are one pool
RevsG == <<0, 15, 128, 129, 16, 255>>
RevsH == <<1, 128, 136, 136, 0, 143>>
CapsA == <<2, 4>>
CapsB == <<3, 4, 5>>
====
