-------------------------------- MODULE Adts --------------------------------
(* The header of an ADTS AAC frame, seven bytes. *)
EXTENDS Integers, Sequences
AacHeader == 7
Frequencies == <<96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350>>
Channels == <<0, 1, 2, 3, 4, 5, 6, 8>>
(* n bits from bit p (from 0) on *)
RECURSIVE Bits(_, _, _)
Bits(b, p, n) == IF n = 0 THEN 0 ELSE (2 * Bits(b, p, n - 1)) + ((b[((p + n - 1) \div 8) + 1] \div (2 ^ (7 - ((p + n - 1) % 8)))) % 2)
Sync(b) == Bits(b, 0, 12) = 4095
ObjectType(b) == Bits(b, 16, 2)
FreqIndex(b) == Bits(b, 18, 4)
ChannelConfig(b) == Bits(b, 23, 3)
FrameLength(b) == Bits(b, 30, 13)
(* a frame is no shorter than its header *)
AacValid(b) == Len(b) >= AacHeader /\ Sync(b) /\ FreqIndex(b) < Len(Frequencies) /\ FrameLength(b) >= AacHeader
SampleRate(b) == Frequencies[FreqIndex(b) + 1]
ChannelCount(b) == Channels[ChannelConfig(b) + 1]
DefaultSamples == 1024
=============================================================================
