#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one record per property)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
                          "observe_at": observe, "hook_needed": None}})

G = "mediagrains/gsf.py"
prop("C01", "GSF round trip returns the same headers, segments and grains",
 "Encoding any collection of file tags, segments (with tags and flow information) and grains of every type into GSF version 7, 8 or 9 and decoding the result gives back the same file id, creation time (to the second, in UTC), tags, segment ids, grain counts and flow information. For every segment the same grains come back in the same order, each with the same data bytes and the same value for every field that version of the format can store.",
 ["inputs", "configurations"], "all headers, all grain types and field values the format can store, data of any length, versions 7 to 9, sync and async encoder and decoder",
 "The repository's GSF tests decode a few example files and encode a handful of hand-made grains; they cannot cover the product of grain types, field values (negative timestamps, 48-bit seconds, null aspect ratios, absent key-frame flags), versions and header combinations.",
 [G, "mediagrains/grains/Grain.py"], [("encode_grain and per-type header encoders", G), ("_sync_decode_head, _sync_decode_gbhd", G)],
 ["GSFEncoder / dumps", "GSFDecoder / loads", "file_headers"])
prop("C02", "Encoded GSF bytes are exactly what the format document prescribes",
 "Every byte the encoder writes is the one the published format prescribes for the content: header, block tags, little-endian fields, signed and unsigned widths, null markers for absent values, and block sizes that exactly enclose the block's contents at every nesting level. A finished file ends with the zero-size terminating grain block, and the segment grain counts are exact in seekable output and -1 in one-pass output.",
 ["inputs", "configurations"], "all headers and grains, versions 7 to 9, all-at-once and streaming, seekable and non-seekable outputs",
 "A wrong size, width or marker that the library's own decoder tolerates (or mirrors) passes every round-trip test; only a comparison against the independent format description settles it for all inputs.",
 [G, "gsf_docs/gsf.md", "gsf_docs/ssb.md"], [("_encode_* helpers, *_block_size, _gbhd_size_for_grain", G)], ["bytes written to the output file"])
prop("C03", "Any conforming GSF file decodes to exactly the content it describes",
 "Decoding any conforming GSF file of version 7, 8 or 9 yields exactly the header and the (grain, segment) sequence it describes, whatever unknown or fill blocks it contains between or inside known blocks, whichever optional blocks it omits and extra trailing fields it adds, and whether or not it ends with a terminator. Concatenated files yield the grains of all of them in order when concatenation is supported and only the first file's otherwise, and selecting segments yields exactly the matching subsequence.",
 ["inputs", "configurations"], "all conforming files: every placement of unknown blocks, optional block and header variation, concatenation and local-id filter",
 "Tests decode files written by two encoders, which never emit unknown blocks, reordered header children or most optional-block combinations.",
 [G], [("block skipping, want_tag search, child_blocks", G), ("have_concatenation handling in grains()", G)], ["GSFDecoder context manager grains()", "loads/load"])
prop("C04", "Truncated or malformed GSF input never yields wrong or partial grains",
 "When a GSF file is cut off at any byte after its header, decoding yields exactly the grains that are completely present, with complete data, and then stops cleanly; when the cut is inside the header the decoder raises an error and yields nothing. Input that is not GSF, has an unsupported version, lacks a header block, or contains undecodable text or blocks too small for their contents is refused with the matching GSF decode error carrying the documented details, for the synchronous and asynchronous decoder alike.",
 ["crash_points", "inputs", "fault_sequences"], "every truncation point of every file, every malformed-structure class, every loading mode",
 "Tests check a couple of truncated buffers at fixed points; the guarantee is about every possible cut and every decoder mode.",
 [G, "mediagrains/utils/asyncbinaryio.py"], [("EOFError handling in grains()", G), ("error classes", G)], ["exceptions and grains observed from GSFDecoder"])
prop("C05", "GSF encoder sessions write every grain once, in order, with true counts",
 "For any sequence of adding tags, segments and grains (through the encoder, the open session or a segment) before, during and after a dump, the finished file contains every accepted grain exactly once, in acceptance order within its segment, under the segment the documented selection rule names, and the segment counts equal the grains written. In streaming mode each grain is completely written by the time the call that added it through the open session returns; header changes during a dump and duplicate segment ids are refused with the documented errors and leave the file unaffected.",
 ["histories", "schedules", "configurations"], "all sequences of session operations, synchronous and asynchronous, streaming and all-at-once, seekable and one-way outputs",
 "The encoder is a state machine with many interleavings (who adds, when, to which segment, before or during a dump); tests run a few fixed scripts.",
 [G], [("_get_segment, add_grains, _start_dump, _end_dump", G), ("_active_dump, _write_count, _count_pos", G)], ["bytes in the output after each call", "exceptions", "segments property"],
 [("active dump", "whether header has been written", G), ("write count / count position", "grains written so far and where the count lives", G)])
prop("C06", "Deferred GSF grain data is right, whatever the order it is loaded in",
 "For every loading mode, input kind and order in which a reader advances, awaits or touches grains, the sequence and metadata of grains is the same and any grain data obtained is exactly the bytes in the file. Loading deferred data never disturbs the position of the grain iteration, and when the reading session ends every outstanding asynchronous deferred grain is loaded or left permanently empty as its mode documents, without errors.",
 ["schedules", "histories", "configurations"], "all interleavings of iterating, loading grain data and leaving the session, in all four loading modes on seekable and non-seekable inputs",
 "Loading order is a schedule: tests touch data immediately or never, and do not interleave out-of-order loads with continued iteration or session exit.",
 [G, "mediagrains/utils/iobytes.py", "mediagrains/grains/Grain.py"], [("_read_out_of_order, lazy grain table, exit handling", G), ("IOBytes loader", "mediagrains/utils/iobytes.py")],
 ["grain.data, awaiting a grain, has_data after exit"])
prop("C07", "Asynchronous binary files behave like ordinary files",
 "For every sequence of reads, writes, seeks and truncations, the asynchronous in-memory file and the wrappers around synchronous files return the same data, positions and final contents as an ordinary binary file, except that a sized read of the in-memory file that cannot be satisfied raises end-of-file. The network stream wrapper delivers the stream's bytes in order exactly once, forward seeks skip (or zero-fill when writing) exactly the requested bytes, its reported position is always the true logical position, and backward movement is refused.",
 ["histories", "schedules"], "all operation sequences and all ways the transport splits the bytes into chunks",
 "Position bookkeeping errors only show up after particular multi-step sequences (read-all then tell, truncate then write past the end, seek then read on a stream); tests run single short scripts.",
 ["mediagrains/utils/asyncbinaryio.py"], [("OpenAsyncBytesIO, OpenAsyncFileWrapper, OpenAsyncStreamWrapper", "mediagrains/utils/asyncbinaryio.py")],
 ["return values, tell(), getvalue(), bytes received by the peer"], [("_pos/_next_pos/_len", "logical positions and length", "mediagrains/utils/asyncbinaryio.py")])
prop("C08", "Lazy byte objects equal the file section they stand for and read it once",
 "A lazily loaded byte object behaves as the bytes of its section of the underlying stream under every sequence of bytes operations (indexing, slicing, iteration, comparison, searching, conversion), reads the stream at most once and not before the content is needed, and leaves the stream position as it found it. Asking for its length or printable form never touches the stream.",
 ["histories", "inputs"], "all operation sequences interleaved with other uses of the underlying stream",
 "Tests exercise single operations on fresh objects, not sequences interleaved with movement of the shared stream.",
 ["mediagrains/utils/iobytes.py"], [("LazyLoader/IOBytes", "mediagrains/utils/iobytes.py")], ["results of operations", "read/seek calls on the stream"])
prop("C09", "Grain attributes and metadata are two views of one state",
 "For every grain type, a value assigned to any documented attribute (identifiers, timestamps, rate, duration, format, dimensions, counts, aspect ratios, flags) reads back as that value from the attribute and appears in the grain's metadata dictionary, and no other attribute changes. A grain built from parameters, or rebuilt from the metadata of another, has the same attribute values, and missing metadata receives the documented defaults.",
 ["histories", "inputs"], "all grain types, attributes, values and sequences of assignments, constructions and rebuilds",
 "Tests assign a few values once per attribute; aliasing between attributes and stale views need sequences.",
 ["mediagrains/grains/Grain.py", "mediagrains/grains/VideoGrain.py", "mediagrains/grains/AudioGrain.py", "mediagrains/grains/CodedVideoGrain.py", "mediagrains/grains/CodedAudioGrain.py", "mediagrains/grains/EventGrain.py"],
 [("property getters/setters over self.meta", "mediagrains/grains")], ["attributes, meta, GrainFactory"])
prop("C10", "Grain list attributes behave as lists over the grain's metadata",
 "Time labels, picture components and coded unit offsets behave, under every sequence of list operations, exactly like a plain list of their elements, and the grain's metadata always holds that same list, which can be written as JSON. Event data read as such a list, which changes by assignment and by the grain's append method. Element objects obtained from them read and write through to the grain, while lists and elements given to a grain stay the giver's own, and an event grain's serialised data always parses back to the same event.",
 ["histories"], "all sequences of reads, assignments, insertions, deletions and slice operations",
 "Tests call each operation once or twice on short lists; empty-to-non-empty transitions and slice forms are sampled only.",
 ["mediagrains/grains/Grain.py", "mediagrains/grains/VideoGrain.py", "mediagrains/grains/CodedVideoGrain.py", "mediagrains/grains/EventGrain.py"],
 [("TIMELABELS, COMPONENT_LIST, UNITOFFSETS, DATA", "mediagrains/grains")], ["list views, meta, event data bytes"])
prop("C11", "Grain data, awaiting, length, equality and copying agree",
 "A grain is a pair of metadata and data: its data, length, byte conversion, indexing, equality and awaited value always agree, a deferred data source is awaited at most once and only when asked for, and replacing the data replaces any pending source. Deep copies share nothing with the original, and copies preserve type, metadata and data.",
 ["histories", "schedules"], "all sequences of awaiting, assigning, copying and mutating grains of every type with every kind of data",
 "Sequences such as await, assign, copy, mutate are combinatorial and tests take one path each.",
 ["mediagrains/grains/Grain.py"], [("__await__, data setter, length, __copy__, __deepcopy__", "mediagrains/grains/Grain.py")], ["data, length, await, ==, copy"],
 [("pending data source", "awaitable not yet consumed", "mediagrains/grains/Grain.py")])
prop("C12", "Grain time spans follow from timestamps, rates, counts and offsets",
 "Every grain's time range starts at its origin timestamp and ends at the timestamp of its last sample (the origin plus sample count minus one samples for audio types, the origin itself otherwise), both ends included. Presentation times are the same values shifted by the temporal offset in frames when one is set on a coded video grain, the media rate is the video frame rate or audio sample rate (absent when zero or not applicable), and time normalisation rounds to that rate and does nothing without one.",
 ["inputs"], "all timestamps, rates, sample counts and temporal offsets, negative values included",
 "The result is rational arithmetic with rounding; tests check a few round numbers.",
 ["mediagrains/grains/Grain.py", "mediagrains/grains/AudioGrain.py", "mediagrains/grains/CodedVideoGrain.py", "mediagrains/grains/CodedAudioGrain.py"],
 [("final_origin_timestamp, origin_timerange, presentation_*, normalise_time, media_rate", "mediagrains/grains")], ["return values"])
prop("C13", "Picture and audio buffers are laid out as their format dictates",
 "For every uncompressed video format and picture size, the components described for a new grain have the dimensions the chroma subsampling dictates, lines that hold whole samples of the format's width, and together tile the data buffer from its start without gap or overlap, so that expected length, allocated length and component extents agree. The expected length follows the description as it changes: the furthest end of any component, or the size of the samples; for grains without a layout it is the length their metadata states, or else that of their data. For every uncompressed audio format the buffer holds exactly channels times samples of that format's sample size.",
 ["inputs", "configurations"], "all formats, picture sizes, channel and sample counts",
 "Tests build a few formats at one size; odd sizes, tiny sizes and the rarer formats are not constructed.",
 ["mediagrains/grains/VideoGrain.py", "mediagrains/grains/AudioGrain.py", "mediagrains/cogenums.py"],
 [("size_for_format, components_for_format, size_for_audio_format, format bit-field predicates", "mediagrains/grains/VideoGrain.py")], ["components, length, expected_length, format predicates"])
prop("C14", "Numpy component views address exactly the right samples",
 "For every supported format, size and component layout, the numeric views of a video or audio grain have the documented shape and type and alias the grain's buffer (24-bit audio excepted, whose samples are widened to 32 bits when the data is set): element (x, y), or sample n of a channel, reads and writes exactly the bytes the format assigns to that sample and no others. Building views, copying a grain or reading never alters the data, and copies are independent.",
 ["inputs", "histories", "configurations"], "all formats, sizes, strides and offsets, every element, every sequence of reads, writes and copies",
 "Tests check a few formats with uniform patterns; index arithmetic errors at odd sizes, padding or for packed formats need every element to be distinct.",
 ["mediagrains/numpy/numpy_grains/VideoGrain.py", "mediagrains/numpy/numpy_grains/AudioGrain.py"],
 [("_component_arrays_for_data_and_type, component_data views", "mediagrains/numpy/numpy_grains")], ["component_data, channel data, grain bytes"])
prop("C15", "Numpy format conversions keep every sample where and what it should be",
 "Converting a grain between supported formats preserves picture size, identity and timing metadata, moves every sample to the place the target format assigns it, and is exact whenever the target can represent the samples: repacking, reordering and chroma replication lose nothing and convert back to the original, and widening keeps every sample as the upper bits of the result (the low bits are filled with noise). Where precision is reduced values are rounded within range and never wrap around, and the source grain is never changed.",
 ["inputs", "configurations"], "all pairs of formats with a conversion, all sizes and sample values",
 "Tests convert a single pattern per pair with tolerances; extreme sample values and positions are not distinguished.",
 ["mediagrains/numpy/convert.py", "mediagrains/numpy/numpy_grains/VideoGrain.py"],
 [("registered grain conversions", "mediagrains/numpy/convert.py")], ["convert / asformat_planar results"])
prop("C16", "Grain comparison reports exactly the attributes that differ",
 "Comparing two grains succeeds exactly when every compared attribute and the data are equal, apart from attributes excluded by option and differences an option declares as expected; creation time counts only when included. The failing attributes it names are exactly those that differ, whichever way round the two grains are given; the printed report and the summary tell those apart from the ones that are equal or left out, and a grain always matches a copy of itself.",
 ["inputs", "configurations"], "all pairs of grains of all types, all subsets of options",
 "Tests vary one attribute at a time with a fixed data payload; combinations of differences, options, formats and data lengths are unbounded.",
 ["mediagrains/comparison/_internal.py", "mediagrains/comparison/options.py"], [("GrainComparisonResult, DataEqualityComparisonResult, options", "mediagrains/comparison/_internal.py")],
 ["truth value, failing_attributes, sub-results"])
prop("C17", "Comparing two grain streams finds the first difference and counts correctly",
 "Comparing two sequences of grains succeeds exactly when they have the same length and match pairwise; otherwise the result identifies the index of the first mismatching pair or of the first grain that only one side has, and compares nothing after it. Its length is the number of pairs compared, each compared pair is available by index (or only the last one when so requested), and each input is consumed no further than needed.",
 ["inputs", "histories"], "all pairs of finite sequences, including empty ones, and all positions of the first difference",
 "Tests use equal-length lists with a single difference; empty inputs and length mismatches combined with the last-only option are unexplored.",
 ["mediagrains/comparison/_internal.py", "mediagrains/comparison/__init__.py"], [("GrainIteratorComparisonResult", "mediagrains/comparison/_internal.py")], ["truth value, len, indexing, items consumed"])
prop("C18", "Pattern generators give the same grain at a time however it is reached",
 "A pattern generator has a grain at every time on its own rate grid, and the grain for a time is the same whether it is fetched by time, by count, by iterating a range (whose ends are included or not as the range says, and a slice's are) or with a step, in any order and any number of times, however many iterators are open. Each grain carries the requested time, identity, rate and format. A time that has no grain (one that is no start of an audio grain, or that a source has no picture for) is reported as absent: by KeyError when indexing, by the default given when asked for with get, as not being a member, and by being passed over in ranges. Ranges without a start are refused, and changing a returned grain never affects later ones.",
 ["histories", "inputs"], "all generators, time keys, ranges, steps and access orders",
 "Tests iterate from zero for a few grains; random access, negative times, steps and mutation between accesses are not explored.",
 ["mediagrains/patterngenerators/abc.py", "mediagrains/patterngenerators/video/still.py", "mediagrains/patterngenerators/video/movingbaroverlay.py", "mediagrains/patterngenerators/audio/tone.py"],
 [("PatternGenerator.__getitem__/get_range, get", "mediagrains/patterngenerators")], ["generator[key], membership, iteration"])
prop("C19", "Video patterns contain the documented picture at every size and format",
 "For every supported format and picture size, luma steps show eight equal steps of rising luma with neutral chroma, colour bars show the eight documented bars across every component with their luma scaled by the intensity, and every line of those patterns is the same; other formats are refused. A moving bar overlay changes exactly the lines covered by the bar, whose position is the frame number times the speed (in whole lines) and wraps at the bottom of the picture in every component, and leaves every other byte of the source's picture unchanged, whatever its layout and wherever its data comes from.",
 ["inputs", "configurations"], "all supported formats, sizes, intensities, bar heights, speeds and frame numbers",
 "Tests check a few sizes that are multiples of eight; wrap-around, odd heights and subsampled chroma positions are sampled only.",
 ["mediagrains/patterngenerators/video/lumasteps.py", "mediagrains/patterngenerators/video/colourbars.py", "mediagrains/patterngenerators/video/movingbaroverlay.py", "mediagrains/patterngenerators/video/constants.py"],
 [("line construction, bar placement", "mediagrains/patterngenerators/video")], ["grain data"])
prop("C20", "Tone grains are consecutive windows of one continuous signal",
 "For every audio format, channel count, grain length, sample rate and frequency, every channel of the grain at a given time holds the samples of one signal, the sine of the frequency asked for at the volume asked for (a fraction of full scale, kept within the format's range), starting at that time's absolute sample number, so consecutive grains join without a break at any position, loops included. Every grain's data has exactly the length its format, channels and samples dictate, and silence is all zero.",
 ["inputs", "configurations"], "all formats, channel counts, grain lengths, rates, frequencies and start positions",
 "Tests compare a few grains with a fixed loop length; loop boundaries that fall inside grains, odd channel counts and non-dividing frequencies are sampled only.",
 ["mediagrains/patterngenerators/audio/tone.py"], [("_get_samples loop indexing and channel layout", "mediagrains/patterngenerators/audio/tone.py")], ["grain data"])
prop("C21", "Wrapping raw essence loses nothing and timestamps every frame",
 "Wrapping a stream of raw video or audio into grains yields grains whose data, concatenated, is the input byte for byte, each (except possibly the last) exactly one frame long, however the input is delivered: from a file, a pipe, in whole or in pieces. Their origin timestamps are the consecutive multiples of the grain period from the first one not before the template's timestamp, without drift, and their synchronisation timestamps are the same. All other metadata is the template's, grains are independent of each other and of the template, and a frame is given before anything after it is read.",
 ["inputs", "configurations"], "all frame sizes, input lengths, rates, start times and ways the input is delivered",
 "Tests wrap a few whole frames from a file.",
 ["mediagrains/utils/grain_wrapper.py", "mediagrains/tools/_file_or_pipe.py"], [("GrainWrapper.grains", "mediagrains/utils/grain_wrapper.py")], ["yielded grains"])
prop("C22", "Wrapping ADTS AAC splits the stream exactly at frame boundaries",
 "Wrapping a stream of ADTS AAC frames yields one grain per frame, in order, whose data is exactly that frame (what there is of it when the stream ends within it), however the input is delivered. Channel count and sample rate are the first frame's, samples per frame the template's (1024 when it has none), rate and duration follow from them, and origin and synchronisation timestamps are consecutive multiples of a frame's duration, from the first one not before the template's timestamp as rounded to the sample rate. Every header field combination is interpreted as the ADTS format defines, and data that does not continue with a valid header, or a frame said to be shorter than its header, is refused.",
 ["inputs"], "all sequences of frames, header field values, start times and samples per frame",
 "Tests wrap one example file; header bit-field combinations and frame sizes are not covered.",
 ["mediagrains/utils/adts_aac_parser.py", "mediagrains/utils/adts_aac_grain_wrapper.py"], [("parse_header, _frames, grains", "mediagrains/utils/adts_aac_grain_wrapper.py")], ["yielded grains, parse results"])
prop("C23", "Wrapping H.264 splits the stream exactly at picture boundaries",
 "Wrapping an H.264 byte stream yields one grain per coded picture, in order, whose data concatenated is the whole stream, whose unit offsets are the positions of every start code in it, and whose key-frame flag says whether all its primary slices are intra. Picture boundaries are found wherever the H.264 rules for the first unit of a new picture put them, regardless of how the input is delivered in blocks. Picture size, coded size, rate, aspect ratio and profile follow from the stream's parameter sets, the first picture's giving every grain's size, rate and duration; origin and synchronisation timestamps are consecutive multiples of the grain period from the template's timestamp as rounded to it. Streams whose parameter sets are missing, out of range or cut short are refused with a ValueError.",
 ["inputs", "schedules"], "all streams of parameter sets, delimiters, supplementary units and slices, all picture-order and field modes, sizes of units relative to read blocks",
 "Tests wrap one short example; boundary conditions differ per field (frame number, field flags, picture order, reference flag, parameter set) and read-block alignment.",
 ["mediagrains/utils/h264_parser.py", "mediagrains/utils/h264_grain_wrapper.py"], [("parse_frame boundary detection, _parse_sps/_parse_pps/_parse_slice_header, _frames buffering", "mediagrains/utils/h264_parser.py")], ["yielded grains, frame info"])
prop("C24", "Command-line tools carry essence into and out of GSF unchanged",
 "Wrapping raw video, raw audio, AAC or H.264 essence into a GSF file with the command-line tools and extracting it again gives back the original bytes, from files and from pipes, and extraction with chosen segment ids gives exactly those segments' data in file order. The wrapped file holds one segment with the flow's id, the requested identity, format, rate and start time, and probing a file reports each segment's true time range and grain count.",
 ["inputs", "configurations"], "all essence lengths, formats, sizes, rates, start times, file and pipe endpoints",
 "The tools have next to no tests.",
 ["mediagrains/tools/wrap_in_gsf.py", "mediagrains/tools/extract_from_gsf.py", "mediagrains/tools/_file_or_pipe.py"], [("wrap_to_gsf, extract_gsf_essence, gsf_probe, InputStreamWrapper", "mediagrains/tools")], ["output files, stdout"])
prop("C25", "Generated test grains honour every requested constraint",
 "Every grain drawn from the library's test-data strategies is valid for its type, has exactly the attribute values that were requested and values within the documented domain for the rest, and data whose length matches its format. Grains drawn from a template keep every attribute of the template and differ only in their data.",
 ["inputs", "configurations"], "all strategies, requested attributes and random draws",
 "Tests draw a bounded number of examples for a few combinations of requested attributes.",
 ["mediagrains/hypothesis/strategies.py"], [("strategy_for_grain_attribute, grains, grains_with_data, grains_from_template_with_data", "mediagrains/hypothesis/strategies.py")], ["drawn grains"])
prop("C26", "A block reader reads exactly what its block holds",
 "The GSF block readers (SyncGSFBlock, and AsyncGSFBlock with what it offers) behave as a view of one block of a file, however blocks are nested and operations ordered: entering finds the next block (the next with the wanted tag, other blocks being passed over whole, or refused when so asked) and tells its tag, size and start; every read gives the value of the bytes that come next, or EOFError where the source ends first; the child blocks are enumerated exactly once each, in order; the bytes remaining are those up to the block's end; leaving a block, normally or because of an exception, puts the file at the block's end, and content that ran beyond it is refused with GSFDecodeError at the block's start. A copy of the remainder of a block reads the same as the block itself.",
 ["inputs", "histories"], "all files, nestings and sequences of operations, on in-memory, seekable and stream sources",
 "Tests read single values from well formed blocks; nested sessions over malformed and cut short blocks, left early, have no bound.",
 ["mediagrains/gsf.py"], [("SyncGSFBlock, AsyncGSFBlock", "mediagrains/gsf.py")], ["values read, file positions, errors raised"])

prop("C27", "The ratio of peak signal to noise is exact and never invented",
 "compute_psnr of two video grains of one format and size, or of two audio grains of one format, channel and sample count, gives one value per component or channel, in order: 10 log10(max^2 / mean squared difference) of exactly the samples that the two grains' own layouts (strides, offsets, interleaving, pairs, planes, 24 bits widened to 32) put in that component or channel, with max the given one, or else the largest value of the format's active bits (video), 1.0 (floating point) or the magnitude of the most negative sample as widened (integer audio); infinity exactly where they agree in every sample. The order of the grains and whether either is a numpy grain make no difference, and neither grain is changed. Grains of differing types, sizes or channel or sample counts and of types without samples are refused with AttributeError, compressed ones and differing audio formats with NotImplementedError.",
 ["inputs"], "all uncompressed formats, sizes, layouts, sample values, peaks, and kinds of grain",
 "Tests compare a few constant pictures; extreme and single differing samples, padded layouts and every format and depth are out of their reach.",
 ["mediagrains/comparison/psnr.py", "mediagrains/cogenums.py"], [], ["values returned, errors raised"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        if not p["anchors"]["state"]:
            del p["anchors"]["state"]
        f.write(json.dumps(p) + "\n")
print(len(P))
