---- MODULE EmbIndexMC ----
EXTENDS EmbIndex
RevsA == <<0, 63, 63, 32, 40, 33>>
RevsB == <<16, 16, 24, 20, 18, 17>>
RevsC == <<63, 63, 62, 60, 56, 48>>
RevsD == <<0, 0, 1, 2, 4, 8>>
RevsG == <<128, 136, 136, 132, 143, 255>>
RevsH == <<0, 8, 9, 4, 255, 248>>
RevsE == <<32, 40, 40, 44, 36, 42>>
\* three levels
RevsJ == <<2048, 2049, 2056, 2056, 2176, 2112>>
RevsK == <<0, 4095, 4094, 4080, 3840, 1>>
RevsL == <<2303, 2303, 2302, 2296, 2240, 2048>>
====
