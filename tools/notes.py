TV = "TLA+ specification, TLC trace validation of recorded behaviour"
MB = "TLA+ specification: TLC behaviours replayed in the code, recorded traces validated by TLC"
SAMPLED = "Holds for every case explored (generated from VERIF_SEED); TLC decides each against the specification. Trusted: TLC, " \
          "the projection of Python objects to specification values in harness/."
NOTES = {
 "C01": (TV, SAMPLED + " GSF documents of all grain types, versions 7-9, all encoder and decoder modes."),
 "C02": (TV, SAMPLED + " Bytes compared in full with Encode of spec/Gsf.tla, written from gsf_docs."),
 "C03": (TV, SAMPLED + " Files with every liberty of the format judged by the total decoder Decode of spec/Gsf.tla."),
 "C04": (TV, SAMPLED + " Every prefix of the generated files; every malformed class at every nesting level."),
 "C05": (MB, SAMPLED + " All histories of four operations of MC_GsfSession (quick: a sample replayed), longer random ones; sync, async and one-way outputs."),
 "C06": (MB, SAMPLED + " All histories of six operations of MC_GsfLoad (quick: a sample replayed) on nine kinds of input, concurrent loads with a scheduling file; MC_GsfLoadTasks checks the locking design. Some files are two or three concatenated, with their deferred data loaded from all of them at once."),
 "C07": (MB, SAMPLED + " All histories of three operations of MC_BinFile (quick: a sample replayed) on seven kinds of file and stream, longer random ones. Streams with a reader and a writer at once have both directions judged: what a forward seek passes over is skipped in one and written in the other."),
 "C08": (MB, SAMPLED + " All histories of three operations of MC_IOBytes on two overlapping sections (quick: a sample replayed), longer random ones with failing streams. Sections that run beyond their stream are included: the length asked for is reported until the data is loaded, what there was after."),
 "C09": (TV, SAMPLED + " Histories of assignments to attributes and to the metadata, constructions from full and partial metadata, rebuilds and copies, all grain types."),
 "C10": (MB, SAMPLED + " All histories of two operations of MC_GrainLists (43 operations, two initial lists; quick: a sample replayed) on three kinds of list, longer random ones on all four."),
 "C11": (MB, SAMPLED + " All histories of three operations of MC_GrainData (quick: a sample replayed) on all grain types including numpy grains; longer random ones with four grains, three sources and concurrent tasks. Refused assignments (payloads of events that are malformed) must leave the grain as it was; only public attributes are read."),
 "C12": (TV, SAMPLED + " Grains of all types with rates, counts, offsets and times on, beside and halfway between multiples of the period; MC_GrainTime checks the laws of the arithmetic on small numbers."),
 "C13": (TV, SAMPLED + " Every uncompressed format at every size up to 8x8 and further sampled sizes, against the format table of spec/Formats.tla; MC_Formats checks that the table's samples are disjoint and fill the buffer."),
 "C14": (MB, SAMPLED + " Every uncompressed format at small sizes with default and other layouts (strides, gaps, order, slack): writes through views, raw writes, assignments, fetches, copies, further grains on the same data; every view compared in full after each step. MC_NumpyViews checks that a write changes one element only, for every format. np.array(grain) is taken of every grain, and must be one flat array of its samples, in the type of its format."),
 "C15": (MB, SAMPLED + " Every pair of formats at sampled sizes, layouts and extreme sample values; every sample of the result judged by the relation of spec/Convert.tla (exact where nothing need be lost, rounding bounds otherwise); MC_Convert checks the relation itself. What the result holds is written to afterwards, and the source must not change with it."),
 "C16": (MB, SAMPLED + " Pairs of grains of all types, equal or differing in up to three attributes and in data of odd lengths and values, with up to five options (excluded, included, conditions on differences); truth, failing attributes, sub-results and reported positions against spec/GrainCompare.tla. MC_GrainCompare checks symmetry, monotony and that nothing but the differing attributes matters. The printed report must show the reason of each part that failed."),
 "C17": (MB, SAMPLED + " Streams of up to seven grains (lists, generators, endless ones) with differing pairs, lengths and options; outcome, length, results kept and grains taken against spec/StreamCompare.tla. MC_StreamCompare checks that a comparison taking grains one at a time ends with that outcome."),
 "C18": (MB, SAMPLED + " Model of a generator's users (MC_PatternAccess: grains got by time, interleaved iterators, grains written over; refuted without copies), its behaviours replayed in the code, and random histories over every generator, key form and range form judged step by step by PatternAccess.tla. Keys of other kinds are looked up too: query objects, and keys that can name nothing."),
 "C19": (MB, SAMPLED + " Model of bars of every height moving over pictures of every height (MC_PatternPicture), and pictures of every format and odd and even size, with and without a bar, at positive and negative frame numbers, judged sample by sample by PatternPicture.tla."),
 "C20": (MB, SAMPLED + " Model of grains cut from a loop that starts over against the signal that never does (MC_Tone, refuted for a loop of no whole number of turns), and tones of every format, channel count, grain length, frequency, volume and starting time judged sample by sample by Tone.tla."),
 "C21": (MB, SAMPLED + " Model of frames cut from a source that gives pieces of any length (Framing/MC_Framing: lossless, complete, nothing read ahead, always ends; refuted for frames taken in a single read), and raw essence of every format and length wrapped from files, pipes, standard input and sources of pieces, its cuts, times (WrapTime) and metadata judged by J_Wrap; histories of reads and seeks of the pipe reader too. Some inputs raise EOFError at their end rather than giving nothing, as the library's own streams may."),
 "C22": (MB, SAMPLED + " Model of frames that tell their size in their header, cut from a source that gives pieces of any length (Framing/MC_Framing), ADTS headers of every field value read bit by bit (Adts), and streams of frames, whole and cut short, wrapped from files, pipes and sources of pieces, judged by J_Adts."),
 "C23": (MB, SAMPLED + " Model of pictures found in a stream read in guessed blocks and short reads (MC_H264: lossless, complete, stable, always ends; refuted for a reader that takes an empty read for the end too early). H264 reads the bytes bit by bit (units, emulation prevention, SPS, PPS and slice header syntax, 7.4.1.2.4 first-slice rules, frame info); random streams over every syntax element, given to the parser in parts and wrapped from files, pipes and sources of pieces, are judged by J_H264."),
 "C24": (MB, SAMPLED + " The tools are run in process with pipes for standard streams (short reads, an output that cannot seek) and files, and some as processes of their own with real pipes; Cli gives the template the options describe (defaults included) and RawWrap/AacWrap/H264Wrap the grains wrapped from it; the GSF output is read back and must be one segment with the flow's id and true count (or unknown in one pass). Extraction and probing are compared with what Gsf.Decode makes of the file's bytes (random multi-segment files, malformed and cut off ones, concatenations for extraction)."),
 "C25": (MB, SAMPLED + " Grains are drawn with hypothesis at pinned seeds for random requests (values, strategies, unset, free) of every type; templates are kept small because hypothesis gives up on draws of more than a few kilobytes."),
 "C26": (MB, SAMPLED + " Model of sessions of entering, enumerating, reading, copying and leaving nested blocks (MC_BlockReader: a block left is left at its end, its sibling is found next, children tile it, a copy reads as the block does); the model's behaviours and random sessions over random trees of blocks (wrong sizes, cut short, wrong tags, every kind of value) are played on in-memory, file, part-of-file and asynchronous sources and judged step by step by J_BlockReader."),
 "C27": (MB, SAMPLED + " Exact squared differences in multi-digit arithmetic and a logarithm found digit by digit (MC_Psnr: exact on powers of two, additive, rising, following noise and number of samples); answers of the real code are compared within 20 millionths of a decibel, for every uncompressed format, padded layouts differing between the two grains, plain and numpy grains, both ways round."),
}
