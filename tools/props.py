HOOK_COMMITS = ["3d78254", "6c17185", "f6a7a68"]
NOT_APPLICABLE = []
SMALL = "The seven stable tests run one or a few fixed sequences; "

prop("C01", "Entropy coding is lossless and near the ideal length",
 "For every sequence of entropy-coded operations (symbols of any valid adaptive distribution of 2 to 16 symbols, bits with any fixed probability, bit groups and literals), decoding the encoder's output with the same initial distributions yields exactly the encoded sequence, and both ends finish with identical distributions. The output is the range code of the bitstream draft, so an independent decoder written from the draft reads the same values, and the project's decoder reads streams made by an independent encoder. The output is never longer than the information content of the sequence, as subdivided by the draft's integer arithmetic, by four bytes or more.",
 ["inputs", "histories"], "every sequence of symbols, bits and literals over every valid set of distributions",
 SMALL + "one round trip per primitive with a handful of symbols and a single distribution; carries, renormalisation, 16-symbol alphabets and long adaptive histories are never reached.",
 ["src/bool_coder.rs"], "range encoder with carry propagation and bitwise renormalisation, mirrored decoder",
 "runtime monitoring: round-trip and differential oracle (independent range coder) over generated coding histories", "Each generated history is encoded by the real coder, decoded by the real decoder and by an independent implementation of the draft's decoder, and compared symbol by symbol, distribution by distribution; stream length is bounded against the measured entropy.")

prop("C02", "Entropy-coded sessions are byte-framed, independent and exactly consumed",
 "Every encoder session appends a whole number of bytes (at least two) to the output, leaves what was there before unchanged, and its bytes depend only on the operations of that session, not on earlier use of the coder object. A decoder session that is told the session's size in bytes (or a larger one, padded with zeros) consumes exactly that many bytes by its end, even when it stops before the last symbol, so that whatever follows is untouched. This holds for any history of sessions, including sessions that were begun and never ended, and raw descriptors on one coder object.",
 ["histories", "inputs"], "every history of encoder and decoder sessions, of any length including empty, on shared coder objects",
 SMALL + "they use one fresh coder per test and never start a second session, stop early or look at what follows.",
 ["src/bool_coder.rs"], "session start resets the coder state; session end flushes, aligns and drains the declared size",
 "runtime monitoring: trace checker over multi-session histories with canary bits around every session", "Histories of up to 8 sessions with reused objects; alignment, prefix preservation, independence of history and exact consumption are asserted after every session.")

prop("C03", "Adaptive distributions follow the draft's update rule and stay valid",
 "Coding a symbol with an adaptive distribution changes that distribution exactly as the bitstream draft prescribes, identically in the encoder and the decoder. Whatever the history, the distribution stays strictly increasing, ends at 32768 and keeps its counter within 0 to 32. A bit coded with a fixed probability leaves no trace in any distribution. While the update is disabled, coding leaves every distribution and its counter as they are.",
 ["histories", "inputs"], "every valid distribution, every symbol of it, every history of symbols",
 SMALL + "no test looks at a distribution after coding, and none codes long enough to saturate the counter or a probability.",
 ["src/bool_coder.rs"], "per-symbol adaptation with a rate depending on the counter and the alphabet size",
 "runtime monitoring: state monitor on every adaptation step against the draft's closed form", "Every step of single-step sweeps and of histories of up to 1700 steps is compared and its invariants asserted.")

prop("C04", "Raw bitstream descriptors match the draft and round-trip over their domains",
 "Fixed-length, signed, non-symmetric, variable-length (uvlc), little-endian and leb128 values of their whole domain are written with exactly the bit layout of the bitstream draft, and reading them back returns the value and consumes exactly the bits written. A code that is cut short is never accepted as a value and never makes the reader run forever; redundant but valid leb128 and uvlc forms are accepted. Alignment adds zero bits up to the next byte boundary and nothing when already aligned.",
 ["inputs", "fault_sequences"], "every value of every descriptor's domain, sequences of them, every truncation point",
 SMALL + "a few mid-range values per descriptor, no extremes, no truncation, and round trips cannot notice a layout that both sides get wrong.",
 ["src/bool_coder.rs"], "bit-level writers and readers of the raw descriptors",
 "runtime monitoring: bit-exact oracle of the draft's layout, round trip, truncation faults", "Small domains are enumerated; large ones are sampled with bias to powers of two and limits; every case is compared bit for bit.")

prop("C05", "Initial probability state is the normative one for every fresh tile",
 "Every default distribution equals the normative table of the bitstream draft, entry by entry, is well formed (strictly increasing to 32768, counter 0), and every one of its symbols can be coded and decoded from it. A new tile always starts from these defaults, whatever earlier tiles coded.",
 ["inputs", "histories"], "all 4648 default distributions and their symbols; every history of earlier tiles",
 "No test reads the tables; one wrong entry makes every stream undecodable by a conforming decoder while round trips inside the project still pass.",
 ["src/cdf.rs", "src/tile_encoder.rs"], "constant default tables copied into the state of each tile",
 "runtime monitoring: full sweep of the live tables against a pinned snapshot plus state-leak monitor", "All distributions are enumerated on every run; the snapshot was taken from the reviewed tree.")

SYN = "No test writes a syntax element; the element writers have many contexts, and a wrong context or symbol only shows in the one combination of block, neighbours and mode that uses it, as a stream another decoder misreads."
prop("C06", "Block-structure and mode syntax elements use the draft's symbol and context",
 "Every block-level mode element (partition and its edge variants, intra and chroma modes, angle deltas, chroma-from-luma parameters, segment id, skip flags, palette elements, filter-intra, transform size and split, quantizer and loop-filter deltas, restoration choices) is coded as the one symbol, with the one distribution, that the bitstream draft prescribes for its value, block size, position and neighbouring mode information (missing neighbours included). Only that distribution adapts, nothing else of the probability state or of the frame's mode information changes, and a decoder that follows the draft reads the elements back in order.",
 ["inputs", "histories"], "every sequence of mode elements with every legal value, block size, neighbourhood and probability state",
 SYN, ["src/bool_coder.rs", "src/constants.rs", "src/frame.rs"], "one writer per syntax element: context derivation from neighbours and block, selection of the distribution, symbol coding",
 "runtime monitoring: whole-state adaptation monitor after every element plus an independent decoder over the recorded session", "Every element writer is driven with random legal arguments and neighbourhoods; all 4648 distributions are compared after every call.")
prop("C07", "Inter-prediction syntax elements use the draft's symbol and context",
 "Every inter-prediction element (intra/inter flag, compound mode and type, single, compound and unidirectional reference frames, new/global/reference motion-vector modes, drl, motion-vector joints, classes and bits, interpolation filter, motion mode, wedge, inter-intra, compound index and group) is coded as the one symbol, with the one distribution, that the bitstream draft prescribes for its value, block and neighbouring mode information (missing, intra and compound neighbours included). Only that distribution adapts, nothing else of the probability state or the mode information changes, and a decoder that follows the draft reads the elements back in order.",
 ["inputs", "histories"], "every sequence of inter elements with every legal value, neighbourhood and probability state",
 SYN, ["src/bool_coder.rs", "src/common.rs", "src/constants.rs", "src/frame.rs"], "reference-count and direction contexts computed from the above and left blocks",
 "runtime monitoring: whole-state adaptation monitor after every element plus an independent decoder over the recorded session", "As C06, with neighbourhoods biased to mixed single, compound, forward and backward references.")
prop("C08", "Transform and coefficient syntax elements use the draft's symbol and context",
 "Every transform and coefficient element (all-zero flag, end-of-block position classes and extra bits, base levels, base range, dc sign, intra and inter transform type) is coded as the one symbol, with the one distribution, that the bitstream draft prescribes for the plane, transform size and type, position, neighbouring coefficient levels and neighbouring blocks. Only that distribution adapts, nothing else of the probability state or the mode information changes, and a decoder that follows the draft reads the elements back in order. The coefficient distributions are those of the lowest quantizer class (base quantizer index up to 20), the only one the coder selects so far.",
 ["inputs", "histories"], "every sequence of coefficient elements over every transform size and type, plane, position and set of levels",
 SYN, ["src/bool_coder.rs", "src/common.rs", "src/constants.rs", "src/frame.rs"], "magnitude contexts from already coded coefficients, transform class from the transform type in force",
 "runtime monitoring: whole-state adaptation monitor after every element plus an independent decoder over the recorded session", "As C06, with all transform sizes and types, all scan positions reachable and coefficient levels from sparse to saturated.")

TAB = "No test reads a table or calls a helper; a wrong entry affects only the block, transform or index that uses it and still round-trips inside the project."
prop("C09", "Geometry tables, constants and numbering agree with the draft and each other",
 "For every block size, transform size and partition, all tables that describe it (dimensions, logarithms, counts of 4x4 units, size class, depth, square and adjusted transforms, subsampled size, partition sub-size, coefficient context offsets) agree with its actual width and height, and the symbolic constants, enumeration values, transform sets and feature tables are those of the bitstream draft.",
 ["inputs"], "every block size, transform size, partition, subsampling, transform set and named constant",
 TAB, ["src/constants.rs"], "constant tables indexed by enumeration values",
 "runtime monitoring: full sweep of the live tables against values computed from block dimensions", "Finite domain, enumerated completely on every run.")
prop("C10", "Filter, mask, quantizer and lookup tables are the normative ones",
 "Every entry of the interpolation, warp and upscaling kernels, blending masks, division and cosine tables, cdef and restoration tables, dc and ac quantizer tables and quantizer matrices equals the value of the bitstream draft. Kernels sum to 128, kernels of mirrored phases are mirrored, matrices of transposed transforms are transposes, and quantizers never decrease with the index.",
 ["inputs"], "all 109 thousand entries of 64 tables",
 TAB, ["src/constants.rs", "src/quantizer.rs"], "constant numeric tables",
 "runtime monitoring: full sweep of the live tables against a pinned snapshot and structural relations", "Finite domain, enumerated completely on every run; the snapshot was taken from the reviewed tree and satisfies the relations.")
prop("C11", "Derived block facts follow the draft for every argument",
 "The residual block size of a plane, the transform for given dimensions, the transform set, membership in it, the transform type in force and its class, the coefficient context, the direction and neighbour counts of reference frames and the signed distance between order hints are what the bitstream draft derives, for every block, plane, subsampling, mode, position, set of coefficient levels and neighbourhood, including positions at the edge of the frame or transform and missing neighbours.",
 ["inputs"], "every argument tuple; finite domains enumerated, neighbourhoods and levels generated",
 TAB, ["src/common.rs", "src/constants.rs", "src/frame.rs"], "pure helper functions shared by the syntax-element writers",
 "runtime monitoring: differential oracle (independent derivation) over enumerated and generated arguments", "Distances, sets, classes, sizes and directions are enumerated; transform types and contexts are sampled.")
prop("C12", "Integer helpers and motion-vector arithmetic are exact",
 "Rounding shifts (signed rounding symmetric about zero), clipping, minimum, maximum, absolute value and floor logarithms of 16, 32 and 64 bit numbers return the mathematically defined value for every argument in their domain, and motion vectors add, subtract and compare componentwise.",
 ["inputs"], "every argument in each helper's domain",
 TAB, ["src/util.rs", "src/common.rs"], "macros and bit-scan lookup tables",
 "runtime monitoring: differential oracle on wide integers", "All 16-bit logarithms, all neighbours of powers of two and a dense rounding grid are enumerated; the rest is sampled.")

OB = "No test codes an OBU; one misplaced bit shifts everything after it, and only in the configuration that reaches it. "
prop("C13", "A sequence header says exactly what was configured",
 "For every legal configuration (profile, frame size from 1 to 65536 in each dimension, operating points, frame identifiers, coding tools, reduced still-picture headers, color description and format, timing information and decoder models) the sequence header payload, read by an independent parser of the draft's syntax, yields exactly the configuration after the draft's inference rules, with no bit missing or left over. Coding a header is repeatable, is not affected by headers coded before, and leaves the encoder with the settings a decoder would infer.",
 ["inputs", "histories"], "every legal header configuration, every sequence of headers coded by one encoder",
 OB, ["src/obu_encoder.rs", "src/sequence_header.rs", "src/encoder.rs", "src/util.rs"], "conditional sequence of fixed-length and variable-length fields",
 "runtime monitoring: parse-back oracle (independent header parser) over generated configurations and histories", "All frame widths and heights around powers of two are swept; other fields are generated with bias to limits.")
prop("C14", "A frame header says exactly what was configured",
 "For every history of frame headers of all types (key, inter, intra-only, switch, shown existing frames, reduced still pictures) under any sequence header, whatever sequences the encoder coded before, each header payload, read by an independent parser of the draft's uncompressed_header that keeps the reference state, yields exactly the configured values after the draft's inference rules, with no bit missing or left over: sizes, superres, references and order hints, frame identifiers, uniform tile layout, quantizer, segmentation, delta q and lf, loop filter, cdef, restoration, transform mode, skip mode, global motion and film grain. After each header the encoder's derived state (tile boundaries, sign biases, lossless segments, quantizer-matrix levels, restoration units, skip-mode frames, global motion, ...) is what a decoder infers from those bits.",
 ["inputs", "histories"], "every legal frame configuration, every history of headers and reference updates, every sequence header",
 OB, ["src/obu_encoder.rs", "src/frame.rs", "src/encoder.rs", "src/common.rs"], "conditional sequence of fields whose presence and width depend on the sequence header, the references and earlier fields",
 "runtime monitoring: parse-back oracle (independent stateful frame-header decoder) and state monitor over generated sessions", "Sessions of up to 8 headers with reference updates; every element is compared by name, then the derived encoder state. Not exercised: tiles of explicit size and frame sizes that differ from the first reference (unimplemented, marked TODO/FIXME in the source).")
prop("C15", "OBUs and temporal units are framed exactly in bytes",
 "Every coded OBU is a whole number of bytes: a header byte with the type of its contents and no extension or size field, then the payload, then (when there is a payload that is not a tile group) one set bit and zero bits up to the byte boundary. Every temporal unit is its size, the frame unit's size and the OBU's length, each the leb128 of the exact number of bytes it covers, then the OBU. A reader that uses nothing but these sizes finds every unit of a stream of any number of units of any size, in order, nothing between or after them, and earlier output is never disturbed.",
 ["inputs", "histories"], "every sequence of temporal units of any OBU type and size",
 OB + "Size fields change length at 128 and 16384 bytes, which no small example reaches.",
 ["src/obu_encoder.rs", "src/bool_coder.rs", "src/binary_writer.rs"], "nested length-prefixed framing over a bit writer",
 "runtime monitoring: stream checker (length-driven splitter) over the bytes that arrive at a fault-injecting sink", "Padding sizes through both size-field boundaries are enumerated; sequences mix headers, metadata, padding and empty OBUs; frame headers and tile groups are framed one at a time.")
prop("C16", "Metadata and padding payloads carry exactly what they were given",
 "For every metadata value (T.35 messages, content light level, mastering display volume, scalability modes and structures, timecodes) the payload, read by an independent parser, yields the metadata type and every field and list unchanged, with no bit missing or left over, whatever was coded before. Padding of n bytes is n zero bytes and a temporal delimiter is empty.",
 ["inputs", "histories"], "every metadata value, every sequence of them",
 OB, ["src/obu_encoder.rs", "src/obu.rs"], "one field layout per metadata type, optional parts behind flags and counts",
 "runtime monitoring: parse-back oracle (independent metadata parser) over generated values", "Country codes, scalability modes and timecode shapes are enumerated; the rest is generated with bias to limits.")
prop("C17", "The bit writer packs most significant bit first and never loses data silently",
 "Whatever sequence of bits, bit vectors, alignments, raw bytes and flushes is written, and however the sink splits or interrupts the writes, the sink receives every complete byte exactly once, in order, packed most significant bit first; alignment pads with zero bits and does nothing on a byte boundary; after a flush, and after the writer is dropped, everything is in the sink or on disk and an existing longer file is replaced. A sink that refuses data is never ignored: the caller is told, and no later byte is written in place of the lost one.",
 ["inputs", "fault_sequences"], "every sequence of calls, every pattern of short, interrupted, refused and failing writes",
 "No test uses the writer; sinks in tests never interrupt, split or fail.",
 ["src/binary_writer.rs"], "bit accumulator over a boxed sink",
 "runtime monitoring: online trace checker on a fault-injecting sink", "Short patterns are enumerated; call sequences, faults and files are generated.")
prop("C18", "The reader delivers the input completely, in order, however it arrives",
 "Filling a vector reads as many bytes as it has elements unless the input ends or fails first, even when the source returns fewer bytes at a time or is interrupted; each element is the next input byte, the returned number is the number of bytes read, and elements beyond the end of the input are zero. A failing source is reported as an error and never as the end of the input. Nothing is skipped or repeated between calls, also when plain and buffered reads are mixed in.",
 ["inputs", "fault_sequences"], "every input, every sequence of reads, every pattern of short, interrupted and failing reads",
 "No test uses the reader; a regular file in a test is always read in full.",
 ["src/binary_reader.rs"], "loop over a boxed buffered source",
 "runtime monitoring: online trace checker on a fault-injecting source", "Sources with short reads, interrupts and errors at random positions behind buffers of 1 to 8192 bytes.")
prop("C19", "Command-line options mean what the usage text says",
 "For every argument vector the options yield the configuration of the usage text: each long or short name sets its value, options may come in any order, the last of repeated ones counts, unset ones keep their defaults (all frames, 30/1), sizes are WxH and rates N or N/D in lowest terms. Malformed, missing, unknown or surplus arguments are rejected with a message, as are configurations without input, output or size, with a dimension outside 1 to 8191, or with a rate of zero. Parsing never panics.",
 ["inputs"], "every vector of argument strings",
 "No test parses an option; the number of malformed and reordered vectors is unbounded.",
 ["src/option.rs"], "table of options with parser and validator each",
 "runtime monitoring: differential oracle (independent option reader) over generated and mutated argument vectors", "All sizes up to the limit and all two-character option names are enumerated; vectors are generated and mutated.")
prop("C20", "The program turns input frames into a valid stream or fails visibly",
 "Run as a program with valid options, it writes exactly one temporal unit with the sequence header of the requested size when at least one complete frame arrives and the frame limit is not zero, and an empty output otherwise, and exits with status 0. The result does not depend on whether input comes from a file, a redirection or a pipe in pieces, on the contents of the frames, or on whether the output is standard output or a file (new or existing); a partial last frame is dropped. Nothing but the stream appears on standard output; bad options, unreadable input and output that cannot be opened or written end with a message on standard error and a non-zero status.",
 ["inputs", "fault_sequences"], "every valid command line and input, every failing file, device or pipe",
 "No test runs the program.",
 ["src/main.rs", "src/option.rs", "src/obu_encoder.rs", "src/binary_reader.rs", "src/binary_writer.rs"], "option parsing, frame loop, header coding, error exits",
 "runtime monitoring: end-to-end monitor of real processes with injected input/output faults", "About a thousand processes per run (fifteen thousand in the thorough tier) with files, pipes, full devices and closed pipes.")
prop("C21", "Frame geometry, neighbours, tile counts and copies are exact",
 "For every frame size the planes hold exactly the samples of a 4:2:0 picture (chroma rounded up), the mode-information grid covers the frame in 4x4 units rounded up to 8x8 blocks, and the above and left neighbours of every position are the units next to it, absent only at the frame's edge or where nothing was coded. Tile counts are those of the tile boundaries and their logarithms round up. A copied partition tree or film-grain parameter set equals the original in every field and every level and is independent of it.",
 ["inputs"], "every frame size up to 8191, every position, tile grid, partition tree and parameter set",
 TAB, ["src/frame.rs", "src/block.rs"], "size computations and field-by-field copies",
 "runtime monitoring: state monitor over enumerated sizes and generated contents", "Sizes up to 130x130 and tile grids up to 64x64 are enumerated; long sizes, neighbourhoods, trees and parameter sets are generated.")
prop("C22", "Loop-restoration units are coded exactly once, as the draft says, per tile",
 "For every picture size, superblock size, chroma subsampling, super-resolution ratio and restoration unit size, coding the superblocks of a frame in raster order codes every restoration unit of every restored plane exactly once, in the superblock in which the unit starts, and codes none when intra block copy is allowed. A decoder that follows the bitstream draft reads back each unit's type and parameters (Wiener coefficients, self-guided set and weights, coded relative to the last coded ones of the plane), the values recorded in the frame and the running references are the decoder's, and only the unit-type distributions adapt. Every tile starts at the bounds of its raster position with the frame's quantizer index, zero loop-filter deltas and the draft's initial references, whatever was coded before.",
 ["inputs", "histories"], "every frame geometry, every assignment of unit parameters, every order of tiles",
 "No test reaches the tile encoder; unit positions with odd sizes, superres and chroma, and the reference-relative code of the parameters, show an error only for particular sizes and values.",
 ["src/tile_encoder.rs", "src/bool_coder.rs", "src/constants.rs"], "mapping of restoration units to superblocks; signed sub-exponential code around a running reference; tile start",
 "runtime monitoring: independent parser of the draft over recorded sessions, exactly-once coverage monitor over units, state monitor at tile starts", "Random frames up to 1400x1400 samples; every unit is parsed back and located; all distributions and references are compared at the end.")
prop("C23", "A block's side information and reference frames are what a decoder recovers",
 "For every sequence of blocks of a tile of an intra-coded frame header with every combination of segmentation features, CDEF, quantizer-delta and filter-delta settings, the draft's parsing process reads back exactly the segment id (also when it is predicted from the neighbours or implied by skip), the skip flag (also when implied by the segment), the CDEF index once per 64x64 unit, the quantizer index and the loop-filter deltas in the frame's resolution, once per superblock and not in a skipped superblock, and for an inter block its single or compound reference frames (also when implied by the segment). Chroma presence and neighbour availability of each block follow its position in the tile. The state the encoder keeps for the next block (segment, skip, lossless, CDEF indices, current quantizer index, filter deltas) is the decoder's, and only the distributions of the coded elements adapt.",
 ["inputs", "histories"], "every tile geometry, block size and position, neighbourhood and setting; every sequence of blocks",
 "No test reaches the block coder; errors show only for particular segment predictions, delta magnitudes, block positions or reference pairs, or in the block after the one that went wrong.",
 ["src/tile_encoder.rs", "src/bool_coder.rs"], "conditional coding with running state; interleaved segment ids; escape codes for deltas; reference trees",
 "runtime monitoring: independent parser of the draft over recorded sessions, state monitor after every block", "Random tiles with sessions of up to ten blocks; every value is parsed back and the recorded state compared after every block; all distributions are compared at the end.")
prop("C24", "Motion vectors, their candidates and predictions are those a decoder derives",
 "For every block of a tile the global motion vectors follow from the frame's parameters and the block's position, and the list of candidate vectors collected from the adjacent row, the adjacent column, the block to the upper right and, if enabled, the co-located motion field holds the draft's vectors (in the frame's precision) and weights in the draft's order, at most eight, with the draft's counts of matches and new vectors and its zero-vector context. The mode and the list index of an inter block and every coded difference, single, compound or intra block copy, in high, normal or integer precision, are read back by the draft's parsing process to the block's vectors, added to the prediction the mode selects; a block without a difference takes its prediction as its vector. Only the distributions of the coded elements adapt, and unavailable neighbours are never consulted.",
 ["inputs", "histories"], "every neighbourhood, global motion, motion field, precision, mode and vector",
 "No test reaches motion vectors; errors show only for particular neighbour sizes, precisions, magnitudes or tile edges.",
 ["src/tile_encoder.rs", "src/bool_coder.rs", "src/common.rs"], "scans over neighbours with weights, fixed-point projection, class-based code for differences",
 "runtime monitoring: differential oracle for candidate lists, independent parser of the draft over recorded sessions", "Random tiles with candidate lists of six blocks each, sessions of up to twelve vectors over the whole range, sessions of complete inter blocks.")
prop("C25", "A tile is coded superblock by superblock as a decoder reads it",
 "For every picture size, tile grid, superblock size and neighbourhood, the data of a tile is one session of the symbol coder from which the draft's parsing process reads, superblock by superblock in raster order, first the superblock's restoration units, then its partition tree and the blocks of it, covering every position of the tile inside the picture exactly once and nothing else. A partition is coded with the context of the sizes of the neighbours, as a reduced symbol where the block crosses one picture edge and not at all where it crosses both; only partitions that exist for a block size are tried, and each consists of the draft's blocks, in order and inside the picture, and is recorded in the superblock's tree. CDEF indices are reset per superblock, nothing outside the tile is consulted, and only the distributions of the coded elements adapt (none where the frame disables it).",
 ["inputs", "histories"], "every picture size, tile grid, superblock size, neighbourhood and order of tiles",
 "No test reaches the tile encoder; errors show only where a block crosses an edge of the picture or of a tile, or for particular sizes of neighbours.",
 ["src/tile_encoder.rs", "src/bool_coder.rs", "src/frame.rs", "src/block.rs"], "recursive descent with edge rules; contexts from neighbours; one coder session per tile",
 "runtime monitoring: independent parser of the draft over recorded sessions, trace checker of the partitions tried and blocks coded, exactly-once coverage monitor", "Random pictures with up to nine superblocks in each direction; blocks carry the default settings the encoder has so far.")
prop("C26", "A tile group carries exactly its tiles",
 "For every tile grid and every division of the tiles into consecutive groups, the payload of a tile group says whether bounds follow and which tiles it holds (in as many bits as the tile counts need), is byte aligned, and then holds each tile in order, every one but the last preceded by its exact size less one in the configured number of bytes, least significant first, with nothing before, between or after them. Every tile can be decoded on its own from the initial probabilities, whatever tiles were coded before. The frame header stays in force until the group with the last tile and not longer.",
 ["inputs", "histories"], "every tile grid, division into groups, size-field length and contents",
 OB, ["src/obu_encoder.rs", "src/tile_encoder.rs", "src/encoder.rs"], "bit fields of derived width, length-prefixed tiles, one symbol coder session per tile",
 "runtime monitoring: parse-back oracle (independent tile group and tile parser) over generated tile grids and groups", "Pictures cut at random superblock boundaries, groups of one to all tiles, size fields of one to four bytes.")
prop("C27", "A stream of pictures decodes from nothing but its own headers",
 "For every sequence header and every series of intra pictures with any legal frame header (size, super-resolution, tiles, segmentation, quantizer and filter deltas, CDEF, restoration, fixed or adapting probabilities), written one after the other as temporal units, a decoder that takes all parameters from the sequence header and the frame header it has read finds every header and tile group, splits every group into its tiles and parses every tile to its end. No parameter that a tile depends on differs from what the headers say, and nothing of an earlier picture leaks into a later one except through the references.",
 ["inputs", "histories"], "every legal sequence of headers and pictures",
 OB + "Header and tile code agree with each other in every test of one of them alone.",
 ["src/obu_encoder.rs", "src/tile_encoder.rs", "src/bool_coder.rs", "src/encoder.rs", "src/frame.rs"], "encoder state set by headers and used by the tile encoder",
 "runtime monitoring: independent decoder (headers, tile groups, tiles) over recorded streams", "Streams of up to three pictures up to 320x320 with up to 25 tiles; blocks carry the default settings the encoder has so far.")
