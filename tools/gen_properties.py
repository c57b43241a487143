#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay editable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})
IO = "source/IOHaptics/"
T = "source/Types/"

p("C01", "HMPG binary file: write then load returns the same experience",
  "For every experience whose values fit the field ranges of the format, saving it as a binary file (or memory buffer) and loading it returns the same tree of avatars, perceptions, reference devices, library effects, channels, bands, effects, nested timeline effects and keyframes, in the same order, with every identifier, string, mask, integer and position exact. Amplitudes, frequencies limits, phases, gains and device figures come back within one quantisation step of their field. (The file format has no field for the timescale and for synchronisations; an avatar's mesh is stored for custom avatars only; absent fields of mandatory slots come back as the format's default.) Nothing that was absent comes back with a meaning it did not have, except the format's own defaults.",
  ["inputs"], "all experiences: any combination of optional fields, any counts, any in-range field value, any nesting",
  "The tests round-trip a few hand-made trees; the guarantee is over all combinations of optional fields, band types, effect types, counts and bit patterns, where one misplaced bit shifts everything behind it.",
  [IO+"src/IOBinary.cpp", IO+"src/IOBinaryBands.cpp", IO+"src/IOBinaryPrimitives.cpp"],
  [("paired bit-field writers and readers", IO+"src/IOBinary.cpp writeFileHeader/readFileHeader"), ("band body codec", IO+"src/IOBinaryBands.cpp"), ("left-over bits carried from read to read", IO+"include/IOBinaryPrimitives.h readNBits")],
  observe=["IOBinary::writeFile / loadFile / loadMemory"])

p("C02", "Re-encoding is stable, repeatable and has no side effects",
  "Encoding a document, in any of the three output formats, leaves the document unchanged and gives the same bytes every time, whatever was encoded or decoded before in the same process. Decoding a binary file or stream and encoding the result again gives the same content as the first encoding: quantised values do not drift from generation to generation.",
  ["inputs", "histories"], "all documents, and all short histories of encode/decode calls before the one observed",
  "Tests encode each document once, in one order; drift and hidden state only show over several generations or after other calls.",
  [IO+"src/IOBinary.cpp", IO+"src/IOStream.cpp", IO+"src/IOJson.cpp", IO+"include/IOBinaryPrimitives.h"],
  [("quantiser", IO+"include/IOBinaryPrimitives.h writeFloatNBits/readFloatNBits"), ("writers take the document by reference", IO+"src/IOStream.cpp writeFile")])

p("C03", "MIHS stream: packetise then depacketise returns the same experience",
  "For every experience and every packet duration, writing it as a packetised stream and reading the stream back returns the same metadata tree and the same effects: each effect in its own band, at its original position, with all of its keyframes (relative positions exact, amplitudes and frequencies within a quantisation step), none lost, duplicated or attached elsewhere. Effects that span several packets are reassembled into one, wavelet blocks come back one by one at their positions, nested timelines come back as the sequence of their effects, references as references. (Keyframes in time order; effect ids, where given, unique in their band; wavelet blocks of at most 255 ticks in an unbroken row; documents that need a packet longer than its length field can express may be refused; components without any content are not carried, nor are the fields the stream has no place for; effects without an id get one; synchronisation points: see the next property.)",
  ["inputs", "configurations"], "all experiences within field ranges x all packet durations",
  "Tests stream one or two documents with one packet duration; losses happen for particular alignments of effects, keyframes and packet borders.",
  [IO+"src/IOStream.cpp", IO+"src/IOBinaryBands.cpp"],
  [("windowing of effects and keyframes into packets", IO+"src/IOStream.cpp createPayloadPacket and helpers"), ("merging of continued effects", IO+"src/IOStream.cpp addEffectToHaptic")],
  observe=["IOStream::writeFile / writeUnits / readFile / loadFile"])

p("C04", "MIHS stream: units tile the timeline and every length field is right",
  "In every stream that is written, each unit's declared length is exactly the bytes of its packets and each packet's declared length exactly its payload, so the stream can be parsed from the headers alone with nothing left over. An initialisation unit comes first and carries all the metadata; it comes again, with its own time, wherever a synchronisation point of the experience falls on a border between units. Temporal and silent units follow in time order, each starting where the previous one ends until the experience ends (temporal units last one packet duration and are never empty, silences a whole number of them), and every data packet carries only keyframes, references and wavelet blocks whose time lies in its unit's window (textures, stiffness and friction, which are not functions of time, lie whole in the first unit). A packet is flagged independent exactly when nothing in it continues an earlier effect, and a unit is a synchronisation point exactly when all its packets are independent. Packet durations that a unit cannot express are refused.",
  ["inputs", "configurations"], "all experiences x all packet durations",
  "Only an independent parse of the bit stream can see wrong lengths, gaps or wrongly placed content: the tests use the library's own reader, which tolerates them.",
  [IO+"src/IOStream.cpp", IO+"include/IOStream.h", IO+"include/IOBinaryFields.h"],
  [("unit and packet headers", IO+"src/IOStream.cpp writeMIHSUnit*"), ("temporal windows", IO+"src/IOStream.cpp writeMIHSUnitTemporal / createPayloadPacket")])

p("C05", "MIHS receiver survives loss, late join and repeats",
  "If any set of units of a stream is lost, or missed because the receiver joined late, or initialisation units are received repeatedly, what the receiver reconstructs is exactly what the units it received describe: metadata, avatars and content are neither duplicated nor altered by repeated initialisation units, values that a later one changes are changed; loss of a unit costs only what that unit carried (its content and the time it spans); and from every initialisation unit on, as long as no unit is lost, content lies at its original time. Units that belong to components the receiver knows nothing of are ignored. A receiver that has to wait for a synchronisation point uses no dependent packet before it, and stops waiting at the first independent packet or synchronisation unit.",
  ["fault_sequences", "histories"], "all subsets of units lost, late-join points and repetitions of initialisation units, for bounded streams",
  "The tests always read complete streams once from the start.",
  [IO+"src/IOStream.cpp", T+"src/Haptics.cpp"],
  [("reader state (time, buffers, metadata caches)", IO+"src/IOStream.cpp readMIHSUnit/readMIHSPacket"), ("metadata replacement for known components", T+"src/Haptics.cpp replacePerceptionMetadataAt")],
  state=[("StreamReader", "what the receiver has learned so far", IO+"include/IOStream.h")])

p("C06", "HJIF: write then load returns the same experience exactly",
  "For every conformant experience, writing it as an HJIF (JSON) file and loading it returns the same tree (nested timelines included) with every value exact, including floating point values, absent optional fields, special characters in texts and arbitrary wavelet payload bytes. A file this software writes from a conformant experience is always accepted by its own loader. (Texts without NUL characters; fields a band or effect kind does not use are not stored.)",
  ["inputs"], "all conformant experiences: any combination of optional fields, enumerations, counts, values",
  "Tests cover a few documents; the guarantee is over all field combinations and all payload byte patterns.",
  [IO+"src/IOJson.cpp", IO+"src/IOJsonPrimitives.cpp"],
  [("paired extract*/load* functions", IO+"src/IOJson.cpp"), ("text armour for wavelet payloads", IO+"src/IOJson.cpp bits2base64/base642bits")],
  observe=["IOJson::writeFile / loadFile"])

p("C07", "HJIF loader accepts exactly the semantically conformant documents",
  "A well-formed HJIF document is accepted if and only if it obeys the semantic rules of the format: known profile and level, version and date syntax, timescale limits of the profile, unique non-reserved avatar ids, unique perception, channel, reference device and library effect ids, existing avatar, device and library references, modalities, effect kinds and band kinds allowed by the profile, consistent device and band frequency limits, unit direction vectors, actuator targets within the declared resolution, curve types only on curve bands, power-of-two wavelet blocks without keyframes, and known semantic keywords. Any single violation, anywhere in the tree, makes loading fail.",
  ["inputs"], "all combinations of rule violations at every place of bounded documents",
  "Each test exercises one rule at one place; a rule that is skipped for the second element, or masked by another rule, goes unseen.",
  [IO+"src/IOJson.cpp"],
  [("semantic conformance checks", IO+"src/IOJson.cpp semanticConformanceCheck*")])

p("C08", "Damaged or truncated input never crashes or hangs a loader",
  "Whatever bytes a binary, stream, HJIF or OHM descriptor file contains - cut off anywhere, or with any byte changed - loading it ends in bounded time, by reporting failure, returning a document, or raising an ordinary error, and never by a memory error, undefined behaviour or an endless loop.",
  ["fault_sequences", "inputs"], "every truncation point and every single-byte damage of bounded files of the four formats",
  "Tests only load intact files (and a missing one).",
  [IO+"src/IOBinary.cpp", IO+"src/IOStream.cpp", IO+"src/IOJson.cpp", "source/Tools/src/OHMData.cpp"],
  [("bounds and validity checks in the readers", IO+"src")])

p("C09", "Bit fields: every value survives, and quantisation is faithful",
  "Any sequence of fields of any widths written to a bit stream reads back value for value, at any bit alignment, and both readers (byte stream and bit vector) agree. Quantised floats are clamped to their range, never off by more than one step, monotone, exact at both ends, and stable when written again.",
  ["inputs"], "all values of the 8 and 16 bit fields, all boundary patterns of wider ones, all alignments, all short field sequences",
  "Tests probe a handful of values at alignment zero.",
  [IO+"include/IOBinaryPrimitives.h", IO+"src/IOBinaryPrimitives.cpp"],
  [("bit packing", IO+"include/IOBinaryPrimitives.h writeNBits/readNBits/readUInt/readInt"), ("float quantiser", IO+"include/IOBinaryPrimitives.h")])

p("C10", "Arithmetic coder is lossless for every symbol sequence",
  "Every sequence of binary symbols, with every assignment of coding contexts, is recovered exactly from its arithmetic-coded form when decoded with the same contexts, including sequences long enough to rescale the adaptive model and several sequences coded one after the other with a reset between them.",
  ["inputs", "histories"], "all symbol/context sequences up to a bound, and all periodic long ones",
  "Tests code a few fixed sequences; carries, underflow and model rescaling depend on rare interval states.",
  ["source/Spiht/src/ArithEnc.cpp", "source/Spiht/src/ArithDec.cpp"],
  [("interval narrowing with underflow bits", "source/Spiht/src/ArithEnc.cpp encode"), ("mirrored adaptive model", "source/Spiht/src/ArithDec.cpp")])

p("C11", "Wavelet block codec (SPIHT) is lossless and blocks are independent",
  "Every block of quantised wavelet coefficients that fits the declared bit depth is recovered exactly by the decoder from the encoder's output, together with its bit depth and its quantised scale factor. A block's encoding and decoding do not depend on the blocks coded or decoded before it.",
  ["inputs", "histories"], "all coefficient blocks up to a bound, all scale factors of the quantiser, all short block histories",
  "Tests use one or two blocks; the set-partitioning order depends on the signs and magnitudes of every coefficient.",
  ["source/Spiht/src/Spiht_Enc.cpp", "source/Spiht/src/Spiht_Dec.cpp"],
  [("set partitioning lists kept in step on both sides", "source/Spiht/src/Spiht_Enc.cpp encode / Spiht_Dec.cpp decode")])

p("C12", "Wavelet transform reconstructs every block",
  "For every block length and decomposition depth, the inverse transform of the forward transform is the original signal, both are linear, and a coded block that reaches the decoder is rendered as its dequantised inverse transform, at its position in the channel and nowhere else.",
  ["inputs", "configurations"], "all impulses and all small integer signals x block lengths x depths; all block arrangements up to a bound",
  "Tests transform one signal at one length.",
  ["source/FilterBank/src/Wavelet.cpp", "source/WaveletDecoder/src/WaveletDecoder.cpp"],
  [("lifting with symmetric extension", "source/FilterBank/src/Wavelet.cpp"), ("block assembly", "source/WaveletDecoder/src/WaveletDecoder.cpp")])

p("C13", "Editing an effect's keyframes keeps its envelope well formed",
  "After any sequence of amplitude and frequency insertions, replacements and removals, an effect's keyframes are ordered in time, hold exactly the values last set for each instant, and keep all values set at other instants untouched. Its length, its values in between and its equivalence to other effects follow the edits at once. Operations on positions or indices that do not exist change nothing and say so.",
  ["histories"], "all operation sequences up to a depth over a small alphabet of positions and values",
  "Tests apply two or three operations in one order.",
  [T+"src/Effect.cpp", T+"src/Keyframe.cpp"],
  [("ordered insertion", T+"src/Effect.cpp addAmplitudeAt/addFrequencyAt")])

p("C14", "The document tree behaves as plain lists; effects stay in time order",
  "After any sequence of add, replace, remove and generate operations on perceptions, channels, bands, effects, devices, vertices and syncs, each container holds exactly what those operations on a plain list would leave; effects added to a band are placed in time order, equal times in insertion order; an effect replaced by index keeps its slot. Out-of-range operations change nothing and report failure, and copies are independent of their originals.",
  ["histories"], "all operation sequences up to a depth",
  "Tests perform one or two operations per container.",
  [T+"src/Haptics.cpp", T+"src/Perception.cpp", T+"src/Channel.cpp", T+"src/Band.cpp"],
  [("container operations", T+"src"), ("ordered insertion of effects", T+"src/Band.cpp addEffect")])

p("C15", "Band allocation never overlaps effects and reuses free bands",
  "When a free band is asked for a time span, the band returned is of the requested kind and none of its effects touches the span; no band is returned only if every band of that kind has an effect touching the span. Content placed through this allocation never overlaps within a band.",
  ["histories", "inputs"], "all arrangements of effects in bands x all requested spans within a small time grid; all allocation histories up to a depth",
  "Tests check a few spans against one arrangement.",
  [T+"src/Channel.cpp", T+"src/Band.cpp"],
  [("overlap test", T+"src/Band.cpp isOverlapping"), ("first-fit search", T+"src/Channel.cpp findBandAvailable")])

p("C16", "Factoring effects into a library and expanding them back is meaning-preserving",
  "Refactoring a document into library effects and references, in any order and number of times, and expanding references back, leaves every band with the same effects at the same times with the same signal description; references always resolve to the effect they replaced, even when the document already has a library. Expanding removes all resolvable references.",
  ["inputs", "histories"], "all bounded documents of repeated and distinct effects over several channels and bands x all short sequences of refactor/linearize",
  "Tests refactor one document once.",
  [T+"src/Perception.cpp", T+"src/Haptics.cpp", T+"src/Effect.cpp"],
  [("equivalence and library ids", T+"src/Perception.cpp refactorEffects/searchForEquivalentEffects"), ("reference expansion", T+"src/Perception.cpp linearizeLibrary")])

p("C17", "Rendering: right value at every instant, bounded, silent elsewhere",
  "Evaluating a channel at any instant, alone or as a block of samples, gives the sum of what its bands' active effects describe at that instant, limited to [-1, 1]: keyframe amplitudes are reached exactly at their instants and interpolated between them, the base signal has the described shape, frequency and phase, and the output is zero before the first and after the last effect. Padding only shifts the result in time.",
  ["inputs", "configurations"], "all bounded documents of each band kind x all sample instants x sampling rates, timescales and paddings",
  "Tests evaluate isolated instants of single effects.",
  [T+"src/Effect.cpp", T+"src/Band.cpp", T+"src/Channel.cpp", "source/Tools/src/Tools.cpp"],
  [("point evaluation", T+"src/Effect.cpp Evaluate*"), ("block evaluation and mixing", T+"src/Band.cpp EvaluationBand, "+T+"src/Channel.cpp EvaluateChannel")])

p("C18", "Curve interpolation passes through its control points",
  "For every strictly increasing set of control points that starts at instant 0, the linear, cubic, natural-spline and Akima curves give one value per sample from the first to the last instant, pass through every control point, stay constant when all points have the same value, and are the curve they are named after at every sample in between; linear and cubic (smooth-step) interpolation never leave the range of the two points around the sample. Bezier curves (quadratic, two points per segment; a last point without partner is not used) and quadratic B-spline curves start and end at their outer points, stay within the range of the control values, and follow the named curve.",
  ["inputs"], "all control point sets up to a size on a time grid, over a small set of values",
  "Tests compare one curve per method with a stored result.",
  ["source/Tools/src/Tools.cpp"],
  [("interpolators", "source/Tools/src/Tools.cpp")])

p("C19", "OHM descriptor files round-trip and map to the document's metadata",
  "Writing an OHM descriptor and loading it returns the same descriptor for every number of elements and channels and all field values that fit; loading a descriptor into a document and extracting it again keeps element, channel, gain and body location information, and an element's description that names a kind of effect gives its perception that modality.",
  ["inputs"], "all bounded descriptors, all body masks bit by bit",
  "Tests round-trip one descriptor.",
  ["source/Tools/src/OHMData.cpp", T+"src/Haptics.cpp"],
  [("fixed-width record layout", "source/Tools/src/OHMData.cpp"), ("metadata mapping", T+"src/Haptics.cpp loadMetadataFromOHM/extractMetadataToOHM")])

p("C20", "AHAP import keeps every event, at its time, with valid parameters",
  "For every well-formed AHAP pattern, each transient event becomes one transient keyframe at its time, and each continuous event one vibration effect at its time and of its duration, in a band where it overlaps no other; amplitudes stay within [0, 1] and frequencies within the importer's range whenever the pattern's values are in range, keyframes are in time order, and an event's own intensity and sharpness and the parameter curves around it determine its values. Malformed files are refused without a crash.",
  ["inputs"], "all bounded patterns: events and parameter curves in all relative arrangements on a time grid",
  "Tests check a few patterns; the curve/event arrangements (before, on, inside, after, absent) multiply.",
  ["source/Encoder/src/AhapEncoder.cpp"],
  [("event extraction and curve modulation", "source/Encoder/src/AhapEncoder.cpp")])

p("C21", "IVS import unrolls launches and nested repeats exactly",
  "For every IVS timeline, each launch of a known effect appears once per pass of every repeat that contains it, at the time it would be played, with later content pushed back by the repetitions before it; attack and fade envelopes, overrides and durations are honoured, and effects in one band never overlap. Launches of unknown effects are skipped without affecting the others.",
  ["inputs"], "all bounded timelines of launches and (nested, adjacent, disjoint) repeats, all envelope parameter arrangements",
  "Tests check single repeats and one nested case.",
  ["source/Encoder/src/IvsEncoder.cpp", "source/Encoder/include/IvsEncoder.h"],
  [("repeat tree", "source/Encoder/include/IvsEncoder.h RepeatNode"), ("envelope construction", "source/Encoder/src/IvsEncoder.cpp convertToEffect")])

p("C22", "Stream integrity codes detect damage",
  "A packet, or a group of 2 to 255 packets, protected by a 16 or 32 bit check code is accepted when intact and rejected when any single bit, or any burst of bits no longer than the code, is changed.",
  ["fault_sequences"], "all single-bit errors and all bursts up to the code length over bounded protected groups",
  "The codes are not exercised by the tests with damage.",
  [IO+"src/IOStream.cpp"],
  [("polynomial division", IO+"src/IOStream.cpp computeCRC/checkCRC")])

p("C23", "The decoder tool and command line parsing do what the library does",
  "For every stream file, the decoder tool writes the HJIF document that the library reads from that stream and reports success; a command line without input or output option gives a failure exit status and the help text, and input that cannot be read or decoded or output that cannot be written a failure exit status and no damage to other files, never a crash. Command line options are found wherever they stand, take the word after them as their value, and do not depend on other options.",
  ["inputs", "configurations"], "all short argument vectors over the option alphabet; all small stream files",
  "Tests do not run the tool, and parse a few fixed command lines.",
  ["source/Decoder/src/main.cpp", "source/Tools/src/InputParser.cpp"],
  [("option lookup", "source/Tools/src/InputParser.cpp"), ("tool flow", "source/Decoder/src/main.cpp")])

p("C24", "Wavelet band encoding is faithful to the signal",
  "For every signal, block length and bit budget, the wavelet encoder produces one block per block of samples, at consecutive block times, and decoding the blocks reproduces the quantised coefficients the encoder chose exactly; the error against the input shrinks to the quantisation step as the budget reaches its maximum, a silent input gives silent output, and a block is encoded the same whatever was encoded before it.",
  ["inputs", "configurations"], "all bounded integer signals x block lengths x bit budgets",
  "The encoder's tests cannot be built here and sample one signal.",
  ["source/Encoder/src/WaveletEncoder.cpp", "source/PsychohapticModel/src/PsychohapticModel.cpp"],
  [("bit allocation and quantisation", "source/Encoder/src/WaveletEncoder.cpp encodeBlock")])

p("C25", "Every accepted document can be decoded and rendered",
  "Whatever a wavelet block's payload contains - any bytes, cut off or damaged - and whatever its length in ticks, decoding it ends without a memory error or hang and gives exactly the samples its length says, all of them finite. Rendering any document a loader accepts, keyframes missing, unordered or at one instant included, at any instant and any sampling rate, gives exactly the samples asked for, all of them within [-1, 1] before gain and unit are applied.",
  ["inputs"], "all short payloads and all one-byte damage of valid ones x block geometries; all short keyframe lists with missing values and any order; every document variation through the player",
  "Tests decode and render a few well-formed files.",
  ["source/WaveletDecoder/src/WaveletDecoder.cpp", "source/Spiht/src/Spiht_Dec.cpp", "source/Types/src/Effect.cpp", "source/Types/src/Band.cpp", "source/Synthesizer/src/Helper.cpp"],
  [("coefficient lists", "source/Spiht/src/Spiht_Dec.cpp sortingPass"), ("block rendering", "source/Types/src/Band.cpp EvaluationBand"), ("player", "source/Synthesizer/src/Helper.cpp playFile")])

p("C26", "The encoder and synthesizer tools do what the library does",
  "For every input of every kind and every combination of options the encoder tool writes exactly the file that reading, importing, refactoring, linearising and writing with the library gives, and the synthesizer tool a WAV file whose samples are what the library evaluates for every channel, times its gain and unit, clamped to 16 bits, at the sampling rate and with the padding asked for. They end with status 0 exactly when that is possible; otherwise - unusable input, option value or output, a missing or unknown element of an OHM file - they fail without an exception. What the encoder tool writes is accepted by the software's own readers. Nothing but the output (and the OHM file asked for) is written, and the inputs stay as they are.",
  ["inputs"], "every kind of input x every option combination; all short command lines; all unusable values, inputs and outputs",
  "Tests do not run the tools at all, and a wrong combination of options shows in none of the library's tests.",
  ["source/Encoder/src/main.cpp", "source/Synthesizer/src/main.cpp", "source/Synthesizer/src/Helper.cpp", "source/Tools/src/InputParser.cpp", "source/Tools/src/WavParser.cpp"],
  [("encoder", "source/Encoder/src/main.cpp main"), ("synthesizer", "source/Synthesizer/src/main.cpp main"), ("export", "source/Synthesizer/src/Helper.cpp playFile")])

p("C27", "Sampled signals: WAV files in and out, and their import",
  "A signal of any number of channels saved as a WAV file has exactly its samples, rounded to 16 bits and clamped, in every channel, and is read back as such; what cannot be written or read is refused. Importing a WAV file gives every channel of it a channel with its sampling rate and number of samples, keeping what was known of it, a curve band through exactly the turning points of its low frequencies (or of all of it), at the ticks next to them, with the curve type of the modality, and a wavelet band of exactly what the curve leaves over, as far as each was asked for. With bits to spare the imported document renders as the signal.",
  ["inputs"], "all short signals and point lists; every sample value; signal kinds x lengths x channels x band options x modalities",
  "Tests use one or two recorded files.",
  ["source/Tools/src/WavParser.cpp", "source/Encoder/src/PcmEncoder.cpp", "source/FilterBank/src/Filterbank.cpp", "source/Encoder/src/WaveletEncoder.cpp"],
  [("WAV files", "source/Tools/src/WavParser.cpp saveFile, loadFile"), ("turning points", "source/Encoder/src/PcmEncoder.cpp localExtrema, convertToCurveBand"), ("import", "source/Encoder/src/PcmEncoder.cpp encode")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
