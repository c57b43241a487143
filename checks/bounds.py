"""What each check explores (quick / thorough), and what it takes for granted."""
COMMON = "the explored executions are those of a single thread, as the code has no concurrency; g++ 13, x86-64"
B = {
"C01": ("every field of the format at the ends and around the middle of its range, alone and in pairs, in a lean and a rich document; all keyframe lists of up to 3/4 keyframes over presence patterns and values in 4 places and 3 forms; all timeline forests with up to 6/8 nodes in 4 band kinds and the library; all trees of perceptions, channels, bands and effects of up to 9/11 nodes; each of 15 lists at the lengths around its count field's width; each code of each small field. File and memory buffer.",
        ["documents whose values fit the format's fields", "texts up to 255 bytes"]),
"C02": ("three formats; every field alone and in pairs; each quantised value at 48/256 codes and halfway values over three generations; all trees of up to 4/6 nodes; keyframe runs against 4 packet durations; all histories of 3/4 encodings, decodings and damaged decodings of 3 documents and 3 formats, each encoding compared with that of a new process", ["the date of the document is valid (an invalid one is replaced by the present time)"]),
"C03": ("every field, packet durations around every boundary of the content (timing, together), all keyframe lists of up to 3/4 keyframes on a grid against the packet duration, nested timelines and references, up to 9 wavelet blocks of 1-255 ticks, spatial bands, composites in libraries, every assignment of own ids to effects that span packets, lists at the lengths around their count fields, pairs of field changes; file and unit list", ["keyframes in time order, unique effect ids in a band, wavelet blocks in an unbroken row", "packet duration at least 1"]),
"C04": ("the scenarios of C03, each stream parsed by a parser of our own; in addition every position of one and two synchronisation points relative to the unit grid", ["as C03"]),
"C05": ("a set of streams (kinds of content x synchronisation points x packet durations): every combination of each unit received or not and each initialisation unit received 0, 1, 2 (thorough: 3) times, with and without waiting for a synchronisation point; two effects of a band at all positions of a grid, likewise; every metadata value of two documents changed to each of its test values by a later initialisation unit, and every kind of band to every other", ["units are lost or repeated whole (damage is C08 and C22)", "whether optional values and avatars that a later initialisation unit no longer has stay is left open"]),
"C06": ("every field alone and in pairs, all keyframe presence patterns, all payloads of up to two bytes and longer ones over bytes that matter, floats of every exponent, every character and every pair of special characters in every text, all trees, all timeline forests, 12 kinds of lists of up to 1000 items", ["texts without NUL", "conformant documents"]),
"C07": ("every rule at every place it applies to with values on both sides (singles), all pairs of them in one document, all id assignments of three components (uniqueness), references across perceptions, every keyword, lattices of directions and targets; the verdict is compared with the rules restated independently; accepted files are also compared value by value", ["the rules are those of the loader's own semantic checks as documented in the specification the code cites; the JSON schema itself is not on this machine"]),
"C08": ("of one file per part of a document (about 90 per format) and a rich file: every truncation point, with the rest missing, or garbage; every byte changed (12/255 values in the lean file, 4/255 in the others); every run of 1, 3, 9 or 40 bytes dropped or doubled; ends of range over 2-4 bytes at every place; every packet type with every length relation; HJIF: every value of every other kind, every member missing, doubled or renamed, every text replaced; nesting and lists up to 10^6; OHM: every truncation and byte (all values in the header). thorough: two bytes, two members. ASan, UBSan, assertions for undefined JSON use, 10 s of processor time, 2 GB per allocation", ["damage of up to two places per file"]),
"C09": ("all sequences of up to 2/3 fields from 40 field kinds at 8 alignments, all sequences of 4/5 over a menu, all 256/1024 codes and halfway points of every quantised field, floats in steps of 40009/509 representations", []),
"C10": ("all sequences of (symbol, context) up to length 10-20 over 1-7 contexts, runs of 1 to 70000 equal symbols in up to three phases, periodic patterns of every pattern up to 7/9 bits, all orders of 2-4/5 sequences coded one after the other with reset or rescale", []),
"C11": ("blocks of 16: all of 8 coefficients over -1, 0, 1 and 4 coefficients over small values at three bit depths; single values at every position of blocks of 8 to 1024 at 15 bit depths; all pairs of positions of 32/64 with all sign and size combinations; 8 shapes x 8 lengths x 15 depths, every scale code x every depth; all orders of 2-4/5 blocks coded and decoded by one object", ["coefficients that fit the bit depth; block lengths that are powers of two"]),
"C12": ("blocks of 8 to 512 samples (14 lengths) and every depth: every impulse, every pair of samples (linearity), all signals over 3 levels on small blocks; bands of up to 4/5 slots over 6 kinds of content at several sample rates, put in in several orders", ["block length exactly representable in ticks, depth at least 1"]),
"C13": ("all sequences of 3/4 (full menu) and 4/5 (reduced menu) editing operations from 4 starting lists, with every index in and just outside the list, compared with an ordered list; all insertion orders of 5/6 instants; length, values and equivalence asked before every edit and compared with a fresh copy after it", []),
"C14": ("all sequences of operations (add, replace, remove, generate, query, in and just outside the list) on each of the container kinds up to a depth per kind (thorough: one more), mixed sequences of 2/3 operations across the tree with a copy taken on the way, all arrival orders of 6/7 effects with equal times; compared with plain lists. ASan, UBSan", []),
"C15": ("every span of a grid around one or two effects of every kind and keyframe list, combinations of several bands of three kinds, all placement histories of 4/5 requests, effects that end far behind others, effects edited in place. ASan, UBSan", []),
"C16": ("all sequences of refactor and linearize up to the stated depth on documents of up to 4 slots over an alphabet of effects, with and without a library, all partitions of 5 effects into equal ones in 8 layouts, pairs of near misses in every field, every set of existing identifiers", ["documents with dangling references are only expanded; cyclic references stay references"]),
"C17": ("effects of every base signal x frequency x phase x keyframe list, transients, curves of every kind, wavelet blocks, sums of several bands, evaluated between ticks and at every sample at several sampling rates, with and without padding, against the description computed independently; the synthesiser's channels with gain and unit", ["keyframes in order and with positions; frequencies within the band's limits; Bezier curves of odd length"]),
"C18": ("all point sets on the first 8/11 instants with values from a small alphabet; up to 4/5 uneven gaps of 1 to 1000; each curve compared at every sample with its definition (moments, Akima slopes, de Boor) computed independently", ["the first point is at instant 0, as in an effect"]),
"C19": ("all shapes of up to 3/4 elements and channels, every mask bit, pair of bits and byte, every field at the ends of its range, every length and byte of every text, several files through one object; every kind of effect in the description of one and two elements; ASan, UBSan", ["texts that fit their field"]),
"C20": ("events of both kinds at every order of times, with curves of up to three points before, around and behind them in any order; times around every half tick at several timescales; existing channels; damaged and mistyped patterns. ASan, UBSan", ["patterns as the AHAP documentation defines them; times not exactly half a tick"]),
"C21": ("every laminar set of up to three repeats with every two launches in any order, nesting up to five deep, siblings, the same on spans of up to half an hour, all attack and fade lengths against the duration, overrides, every millisecond at several timescales; against a player of our own. ASan, UBSan", ["repeats are nested or disjoint"]),
"C22": ("every packet of up to 16 bits and every code; every single bit and every burst of every length up to the code's at every place of groups of 1 to 255 packets; 24 places of packets of up to 200,000 bits; damage of the code; groups one after the other", []),
"C23": ("all command lines of up to 5/6 words over an alphabet of 11; all streams of C03's fields x 3 packet durations x 4 spellings; every truncation and 3-10 changes of every byte of streams; inputs and outputs that cannot be used; all word lists up to 6/7 for the parser", ["option values are not themselves checked for looking like options"]),
"C24": ("blocks of 16 to 256/512 samples x budgets (every one for small blocks): impulses, steps, tones and mixtures at several places and amplitudes, all signals of three levels on eight samples; silence; whole signals of up to 3/4 blocks, the last one cut; all histories of a few encodings in one process against a new process", ["samples within [-1, 1]"]),
"C25": ("all payloads of up to two bytes x 7 block lengths; payloads of 5 lengths, 4 depths and 3 contents: every truncation (with three fillings), every byte changed (51/255 values), between intact blocks; block lengths of 1 to 130/256 ticks x 8 frequencies x 5 timescales; all lists of up to 3/4 keyframes over 6 positions (none, unordered, negative) and 3 amplitudes (x 3 frequencies) in every kind of band and curve; curves of up to 10/14 points; every document variation of C06 through the player, thorough: pairs. ASan, UBSan", ["the player's WAV writer is a stand-in that records the samples (its library is not on this machine); the first twenty seconds are played"]),
"C26": ("28 inputs of every kind (AHAP, IVS, HJIF, WAV, OHM with elements; 16 of them unusable) x every combination of -b, -r, -l, 6 timescales, 4 packet durations, 10 sets of sound options, the two switches, short and long option names, an output that is there already; 16 values of 6 options; all command lines of up to 4/6 words of 12 (encoder) and 4/5 words of 13 (synthesizer); 6 output places x 8; 4 folders for OHM elements; every document variation of the HJIF and MIHS families x 7 sampling rates x 4 paddings x metadata", ["dr_wav and Iir are stand-ins (stubs/); WAV files of 16 bit samples; block lengths that are powers of two from 8 up; that the library takes what is written: timescales of the profile, for sound 1000 and 8000 (others give block lengths of no power of two of ticks); bit budgets of at least 1"]),
"C27": ("all signals of 1 to 3 channels and up to 3 samples over 15/8 values (more than 4 samples: 5/8 values) x 4 rates; all 65536 sample values; every truncation of a WAV file; all signals of up to 8/9 samples over 4/5 values; all lists of up to 4 points with 7 distances x 8 scales x 4 limits; imports of 9 kinds of signals x 5 lengths x 1 to 3 channels x 3 cut-offs x bands x 14 modalities x channels there before x timescales; 9 kinds x block lengths x cut-offs through import and rendering", ["dr_wav and Iir are stand-ins (stubs/): what is checked is the software around them"]),
}
