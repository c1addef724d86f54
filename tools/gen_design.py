D = r'''# Model-based verification of mediagrains with TLA+

Language: **TLA+, checked with TLC** (not Quint).  The library is mostly formats, list-like views and small
state machines.  The specification therefore has to *compute* (encode a whole GSF file, decode one, lay out a
picture, advance a session, parse an H.264 slice header) on data that comes from the implementation, thousands of
times per run.  TLC evaluates TLA+ directly on JSON input (CommunityModules `Json`), runs on all cores, and can both
enumerate the state graph of a small model and judge recorded executions with the same operators.  Quint's
simulator/Apalache back end has no comparable way of reading recorded data, and symbolic checking adds nothing to
sequence-heavy computations.

## Layout

* `spec/*.tla` - the specification, one module per part of the system (see the table).
* `spec/MC_*.tla` - exhaustive models of the state machines and laws (small constants), with design invariants; some
  also print their operation sequences (behaviours), which are replayed into the real code; some have a constant that
  puts a fault back (reading frames in one read, giving out the generator's own picture, leaving out the lock), and the
  check requires TLC to refute the invariant then, so that a vacuous model is noticed.
* `spec/J_*.tla` - judges: they read what the real code did (`CASES`, ndjson) and evaluate the same specification
  operators on it.  A judge is total: every case gets a verdict, a failing one with the names of the failing clauses.
* `harness/*.py` - drivers: generate inputs (seeded by VERIF_SEED, plus TLC's behaviours), run the real public API
  of /repo's working tree, record the observations, hand them to TLC.  They contain no expected values.
* `check.py Cxx` - entry point of every check (tier from VERIF_TIER, tree from VERIF_REPO, default /repo).
* `tools/` - generators of properties.jsonl, MANIFEST.json and of the table of planted bugs below, `plant.py` (validates
  and keeps a planted bug), `mut.sh`, `regress.sh`.
* `known_findings.jsonl` - the genuine defects found (all repaired so far, each by a `fix:` commit in /repo).

Conventions: TLC integers are 32 bit, so big numbers travel as little-endian limb sequences (`Big`), rationals as
pairs, text as UTF-8 byte sequences.  If TLC cannot even evaluate the specification on an observation (wrong type of
value observed) that case counts as failing, not as an error of the machinery; an exception or a hang of the code
under test is an observation like any other.  A failing run writes `replays/<id>-0.json` with the case, which the
judge can be run on again.  No hooks were needed in /repo: everything is driven and observed through the public API.

Why this reaches what the tests cannot: the tests compare a handful of inputs with hand-written values.  Here the
oracle is a function of the whole input (the specification), so every input that can be generated is decided, and the
small models are decided for *all* their histories, whose operation sequences are then replayed in the code.

## How each property is decided

Costs are wall seconds of the quick check on this sandbox; the thorough tier uses about ten times as many cases,
longer histories and larger constants.  "Models" are exhaustive within their constants; "judged" means TLC evaluates
the specification on recorded behaviour of the real code.

| id | specified in TLA+ | bound to the code by | s |
|----|-------------------|----------------------|---|
| C01 | `Gsf`: `Norm(version, doc)`, what a version can store of a document | random documents -> real encoder (sync, async, streaming, all at once) -> real decoder (sync, async, every loading mode); decoded document judged (`J_GsfRound`) | 7 |
| C02 | `Gsf`: byte-exact `Encode`, written from gsf_docs | TLC computes the whole file and compares byte by byte (`J_GsfEnc`) | 3 |
| C03 | `Gsf`: total reference decoder `Decode(bytes)` | files with every liberty of the format (unknown blocks, omitted/extended/reordered blocks, concatenation, local ids) from `gsffiles.py`; output judged (`J_GsfDec`) | 10 |
| C04 | `Gsf`: `Decode` of prefixes and of malformed files, with the classes of their errors | every truncation point x sync/async x loading modes; every malformed class at every nesting level | 36 |
| C05 | `GsfSession` state machine; `MC_GsfSession` | its histories and longer random ones replayed in the real encoder; output after every call judged (`J_GsfSession`) | 17 |
| C06 | `GsfLoad` session of iterating, loading and leaving; `MC_GsfLoad`, `MC_GsfLoadTasks` (lock refuted when absent) | histories replayed on nine kinds of input, concurrent tasks with a scheduling file; judged step by step (`J_GsfLoad`) | 16 |
| C07 | `BinFile` file semantics; `MC_BinFile` | operation histories on seven kinds of file and stream (`J_BinFile`) | 12 |
| C08 | `IOBytes`; `MC_IOBytes` | operation histories on two overlapping sections with a recording, failing stream (`J_IOBytes`) | 10 |
| C09 | `GrainMeta` attribute/metadata state | assignment histories, constructions, rebuilds and copies (`J_GrainMeta`) | 20 |
| C10 | `GrainLists` list semantics of the views; `MC_GrainLists` | all histories of two of 43 operations, longer random ones (`J_GrainLists`) | 18 |
| C11 | `GrainData` data, pending sources, copies, tasks; `MC_GrainData` | all histories of three operations, longer ones with concurrent tasks (`J_GrainData`) | 24 |
| C12 | `Big`, `GrainTime`; `MC_GrainTime` (laws on small numbers) | grains on, beside and halfway between the points of their rate's grid (`J_GrainTime`) | 20 |
| C13 | `Formats`: samples, planes, component geometry; `MC_Formats` (disjoint, filling) | every format x every size up to 8x8 and sampled sizes (`J_Layout`) | 5 |
| C14 | `NumpyViews`: address of each sample; `MC_NumpyViews` | histories of writes through views, raw writes, assignments, copies (`J_NumpyViews`) | 22 |
| C15 | `Convert`: relations between source and converted samples; `MC_Convert` | every pair of formats, judged sample by sample (`J_Convert`) | 9 |
| C16 | `GrainCompare`; `MC_GrainCompare` (symmetry, monotony) | pairs with planned differences and options (`J_GrainCompare`) | 38 |
| C17 | `StreamCompare`; `MC_StreamCompare` | pairs of lists, generators, endless streams (`J_StreamCompare`) | 13 |
| C18 | `PatternAccess`; `MC_PatternAccess` (refuted without copies) | model's behaviours and random histories over every generator and form of key (`J_PatternAccess`) | 42 |
| C19 | `PatternPicture`; `MC_PatternPicture` | pictures of every format and size, with and without bar, judged sample by sample (`J_PatternPicture`) | 19 |
| C20 | `Tone`; `MC_Tone` (refuted for loops of no whole turn) | tones judged sample by sample by rational bounds of the sine (`J_Tone`) | 37 |
| C21 | `Cutting`, `Framing`, `WrapTime`, `RawWrap`; `MC_Framing` (refuted for single reads) | wrapping from files, pipes and sources of pieces; pipe reader histories (`J_Wrap`) | 15 |
| C22 | `Adts` (header bits), `AacWrap`, on `Framing` | streams with every header field, whole and cut (`J_Adts`) | 11 |
| C23 | `H264` (NAL units, SPS, PPS, slice headers, first slice of a picture), `H264Wrap`; `MC_H264` (refuted for a hasty end) | random streams over every syntax element, parsed in parts and wrapped (`J_H264`) | 24 |
| C24 | `Cli` (templates of the options, extraction, probing) on `Gsf.Decode`, `RawWrap`, `AacWrap`, `H264Wrap` | the tools run in process and as processes with real pipes (`J_Cli`) | 18 |
| C25 | `Drawn` domains and requests, on `Formats` and `GrainTime` | grains drawn for random requests (`J_Drawn`) | 25 |
| C26 | `BlockReader` (sessions over nested blocks); `MC_BlockReader` | model's behaviours and random sessions on every kind of source (`J_BlockReader`) | 25 |
| C27 | `Psnr` (exact noise and logarithm, on `NumpyViews`' samples); `MC_Psnr` | real ratios for all formats, layouts and kinds of grain, both ways round (`J_Psnr`) | 25 |

No property is listed under not_applicable.

## Limits and what is left open

What the specification leaves open on purpose, because neither documentation nor ordinary expectation settles it, is
listed by each check under "assumptions" in its evidence.  In short:

* C01-C06: creation times of grains are not stored by GSF, so not compared.  Recorded times are those GSF can hold.
* C11: what awaiting the plain copy of a still pending grain yields; whether plain copies share their buffer.
* C12: negative rates; beyond mediatimestamp's 2^48 s; audio without a sample rate has no final times.
* C14: views of 24 bit samples are widened snapshots, not aliases, so not judged after in-place changes.
* C15: sizes the subsampled format does not divide are converted only between formats of equal arrangement.
* C16: signal-to-noise ratios are placed between multiples of 10 dB; zeroes of either sign; 4:2:0 pictures with empty
  chroma planes (their ratio is NaN).
* C18: between two frames a video generator may give the nearest or none; half-way ties are not generated; ranges that
  may never yield are taken up to a bound.  A tone's integer keys count samples, ranges of counts count grains.
* C19: the product of a decimal intensity may come out one less; C20: rounding slack of one, padding channel of an odd
  number of channels in pairs is free, zero volume may be -0.0.
* C21: sources give nothing only at their end; C22: the layer bits are zero; C23: no prefix NAL units (type 14), rates
  below 1 GHz; C24: probe of concatenated files (their later headers may name other ids: KeyError) is not judged, nor
  coded rates beyond 32 bits; C25: hypothesis gives up on draws of more than a few kilobytes, so templates are small.
* C26: reading the rest of a block from beyond its end may give nothing or be refused in any way (the library raises
  EOFError or ValueError); after a refusal nothing is read before the block is left.
* C27: components without samples (no ratio exists), grains without data and uncompressed pictures of differing formats
  are not compared; floating point samples are multiples of 1/65536, so that the noise is exact.

The models are exhaustive only within their constants, the judged executions are samples; nothing here is a proof for
all inputs.  Trusted: TLC, the projection of Python objects to specification values in harness/, and the generators'
ability to reach the interesting inputs (which the planted bugs below test).

## Defects found

Every violation on the tree as given that turned out to be the code's fault was repaired by a `fix:` commit; they are
listed with property and commit in `known_findings.jsonl` (%(fixed)d entries).  There is no unrepaired known finding.

## False alarms corrected

Places where the first version of the specification was too strong or wrong, and was changed (not silenced):

* C14: S24 views do not alias the data (documented as a widened copy).
* C15: "converts back to the same" is too strong when widening adds noise or a mean of four is taken; the relation
  bounds the error by the coarser depth instead.
* C16: time differences are clamped by TimeOffset; NaN ratios of empty planes not generated.
* C18: frames between two grid points; tone keys count samples.
* C19: gapped layouts cannot be routed through files; floating products of intensities.
* C20: -2^31 and -2^31+1 are not told apart by 32 bit floats.
* C21: the first timestamp is the grid's first point not before the start (not the start itself).
* C24: times beyond 2^48 s and audio without sample rate.
* C25: draws given up on by hypothesis (templates too large) were taken for failures.

## Planted bugs

Each was written from the property's text and the code, keeps the tests passing and comes with a demonstration.  The
check of its property reports every one of them (vcheck runs a random dozen).  Those marked * were missed, or caught by
a hair, at first; the check was then strengthened by generating what they need (never by looking for the change).

<!-- planted -->
'''
import json, os, glob
fixed=sum(l.startswith('fixed:') for l in open('/verif/known_findings.jsonl'))
MISSED=json.load(open('/verif/tools/first_missed.json'))
rows=["| planted bug | needs | breaks |","|---|---|---|"]
for d in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(d)); n=os.path.basename(os.path.dirname(d))
    rows.append("| %s%s | %s | %s |"%(n,"*" if n in MISSED else "",m["needs"],m["what_it_breaks"]))
open('/verif/DESIGN.md','w').write(D.replace('%(fixed)d',str(fixed)).replace('<!-- planted -->',"\n".join(rows)))
