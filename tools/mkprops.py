#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the lines stay readable and consistent)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))
NF = ['src/decompose.rs', 'src/recompose.rs', 'src/normalize.rs', 'src/lookups.rs', 'src/perfect_hash.rs', 'src/tables.rs', 'src/lib.rs']
p('C01', 'NFD and NFKD are the exact canonically ordered full decompositions',
  "For every sequence of characters, normalising to NFD yields exactly the text's full canonical decomposition (Hangul syllables included) as defined by Unicode 16.0, with every run of non-starters stably sorted by canonical combining class; NFKD yields the same for the full compatibility decomposition. Nothing is lost, duplicated, invented or moved across a starter, whatever the length of the text or of its runs of combining marks.",
  ['inputs'], 'all strings over all 1,112,064 scalar values, any length, any arrangement of combining marks',
  "The tests run the ~20k strings of NormalizationTest.txt, all short and mostly one cluster; unlisted characters, long mark runs, mixed clusters and interactions between neighbouring characters are never compared with an oracle.",
  NF, [('buffering and canonical ordering of pending characters', 'src/decompose.rs: push_back, sort_pending, reset_buffer, next'), ('per-character decomposition and Hangul arithmetic', 'src/normalize.rs: decompose, decompose_hangul'), ('perfect-hash lookups', 'src/perfect_hash.rs: mph_lookup')],
  [('buffer/ready', 'characters sorted and ready to emit, followed by a pending unsorted run', 'src/decompose.rs: Decompositions')], ['output of .nfd()/.nfkd() on str, char and iterators'])
p('C02', 'NFC and NFKC are the exact canonical composition of NFD and NFKD',
  "For every sequence of characters, normalising to NFC (NFKC) yields exactly the result of the Unicode canonical composition algorithm applied to its NFD (NFKD) in Unicode 16.0: a character is merged into the last preceding starter if and only if it is not blocked from it and the pair has a non-excluded primary composite (Hangul syllables included). All other characters keep their content and order.",
  ['inputs'], 'all strings over all scalar values, any length, any interleaving of starters, blocked and unblocked marks',
  "NormalizationTest.txt samples each composite alone and a few blocking patterns; it does not cover arbitrary sequences of blocked/unblocked marks, long buffers, starter-starter chains or composition exclusions in context.",
  NF, [('composition state machine', 'src/recompose.rs: Recompositions::next'), ('pair composition', 'src/normalize.rs: compose, compose_hangul; src/lookups.rs: composition_table')],
  [('state/composee/last_ccc/buffer', 'the starter being composed onto, the class of the last uncomposed mark, and marks waiting behind the starter', 'src/recompose.rs: Recompositions')], ['output of .nfc()/.nfkc()'])
p('C03', 'Normal forms are stable, mutually consistent and respect text equivalence',
  "For all texts: each form is idempotent; forms chain as the standard requires (NFC of NFD equals NFC, NFD of NFC equals NFD, any canonical form followed by a compatibility form equals that compatibility form directly, and a canonical form leaves the corresponding compatibility form's output unchanged). Texts that are canonically (compatibility) equivalent have identical NFC and NFD (NFKC and NFKD). Normalising a concatenation equals concatenating the normalisations whenever the second text begins at a normalisation boundary.",
  ['inputs'], 'all texts, all pairs of equivalent texts, all boundary splits',
  "Tests check idempotence only for the listed strings; equivalence classes are exponentially large and boundary splits are not tested at all.",
  NF, [('canonical ordering', 'src/decompose.rs'), ('composition', 'src/recompose.rs'), ('decomposition/composition tables agree', 'src/tables.rs')], (), ['outputs of the four forms on related texts'])
p('C04', 'Single-character decompose and pair compose are exact for every code point',
  "For every character, the public canonical and compatibility character decomposition functions emit exactly its full Unicode 16.0 decomposition (or the character itself when it has none), each output character once and in order. For every pair of characters, compose returns the primary composite with exactly that canonical decomposition when one exists (Hangul LV and LVT included, composition exclusions omitted) and nothing otherwise.",
  ['inputs'], 'every scalar value; every ordered pair of scalar values',
  "Tests touch the listed characters through the string API; pairs that must not compose (1.2e12 of them, including hash-colliding and truncation-colliding ones) are practically untested.",
  ['src/normalize.rs', 'src/lookups.rs', 'src/perfect_hash.rs', 'src/tables.rs'],
  [('table lookups', 'src/lookups.rs: canonical_fully_decomposed, compatibility_fully_decomposed, composition_table'), ('Hangul arithmetic', 'src/normalize.rs: decompose_hangul, compose_hangul')], (), ['char::decompose_canonical, char::decompose_compatible, char::compose'])
p('C05', 'Character property lookups equal Unicode 16.0 for every code point',
  "For every character, the reported canonical combining class, whether it is a combining mark (General_Category Mark), and whether it is a publicly assigned character (neither unassigned nor private-use) are exactly the values of the Unicode Character Database version the crate announces, 16.0.0.",
  ['inputs'], 'every scalar value (a finite but large space: 1,112,064 values x 3 properties)',
  "Tests probe ~100 code points of is_public_assigned, two combining marks and ASCII; everything else is table data nobody compares.",
  ['src/lookups.rs', 'src/perfect_hash.rs', 'src/tables.rs'],
  [('perfect hash with stored keys', 'src/perfect_hash.rs: mph_lookup'), ('generated range match', 'src/tables.rs: is_public_assigned')], (), ['char::canonical_combining_class, char::is_combining_mark, char::is_public_assigned, UNICODE_VERSION'])
p('C06', 'Unassigned, private-use and noncharacters pass through untouched',
  "Every code point that is not publicly assigned is inert: it is a non-mark starter with combining class 0, never decomposes, never composes with any neighbour on either side, is never replaced, is always accepted by every normalisation check, and separates the text around it, so that normalising x + c + y in any form gives the normalisation of x, then c, then the normalisation of y.",
  ['inputs'], 'every code point outside the assigned repertoire (957,001 of them) between arbitrary texts',
  "No test puts an unassigned, private-use or noncharacter code point through normalisation.",
  NF + ['src/quick_check.rs', 'src/stream_safe.rs', 'src/replace.rs'], [('lookup defaults for keys not in the tables', 'src/perfect_hash.rs: mph_lookup; src/lookups.rs')], (), ['all public operations'])
p('C07', 'CJK compatibility variants replaced exactly and survive normalisation',
  "The CJK-variants transformation maps each of the 1,002 CJK compatibility ideographs that have a standardized variation sequence to that two-character sequence (unified ideograph plus variation selector), leaves every other character (Hangul included) unchanged, and works character by character, so it distributes over concatenation. Its results are unaffected by any later normal form, and dropping the selectors it added and then normalising gives the same text as normalising directly.",
  ['inputs'], 'every scalar value; all strings mixing ideographs, marks, Hangul and selectors',
  "Tests cover two ideographs and one Korean sentence.",
  ['src/replace.rs', 'src/normalize.rs', 'src/lookups.rs', 'src/tables.rs'], [('one-character replacement buffer', 'src/replace.rs: Replacements::next'), ('lookup', 'src/normalize.rs: decompose_cjk_compat_variants')],
  [('buffer', 'second character of a replacement not yet emitted', 'src/replace.rs: Replacements')], ['.cjk_compat_variants(), char::decompose_cjk_compat_variants'])
p('C08', 'Quick checks are never wrong and only hedge when Unicode does',
  "For every text and each of NFC, NFD, NFKC and NFKD: if the quick check answers Yes the text is already in that form, and if it answers No it is not. It answers Maybe only when the text contains a character that could combine with a preceding one (Unicode quick-check value Maybe) and is not already recognisably out of order or containing a forbidden character; hence the NFD and NFKD quick checks always answer definitely.",
  ['inputs'], 'all texts, four forms',
  "The unit tests never compare quick answers on arbitrary text with real normalisation; they use the listed strings through the authoritative wrappers only.",
  ['src/quick_check.rs', 'src/tables.rs', 'src/lookups.rs'], [('single pass with last combining class', 'src/quick_check.rs: quick_check'), ('per-character quick-check values', 'src/tables.rs: qc_nfc, qc_nfd, qc_nfkc, qc_nfkd')],
  [('last_cc/result', 'class of the previous character and verdict so far', 'src/quick_check.rs: quick_check')], ['is_nfc_quick, is_nfd_quick, is_nfkc_quick, is_nfkd_quick'])
p('C09', 'Authoritative checks answer true exactly for normalised text',
  "For every string and each of NFC, NFD, NFKC and NFKD, the authoritative check returns true if and only if normalising the string to that form returns the identical string.",
  ['inputs'], 'all strings, four forms',
  "The tests assert it for the listed strings (each a single cluster); the interplay of an early quick answer with later text is not covered.",
  ['src/quick_check.rs', 'src/recompose.rs', 'src/decompose.rs'], [('quick answer, else compare with the normalised stream', 'src/quick_check.rs: is_nfc, is_nfd, is_nfkc, is_nfkd')], (), ['is_nfc, is_nfd, is_nfkc, is_nfkd'])
p('C10', 'Stream-safe processing inserts joiners exactly where UAX #15 requires',
  "For every text, the stream-safe transformation outputs the text with U+034F inserted exactly at the places the UAX #15 Stream-Safe Text Process prescribes (before a character that would bring the number of consecutive non-starters in the NFKD of the text since the last starter or inserted joiner above 30) and nowhere else. Consequently the output never contains more than 30 consecutive non-starters when normalised to NFKD, text that already satisfies this is unchanged, removing the inserted joiners restores the input, and applying it twice changes nothing more.",
  ['inputs'], 'all texts, in particular runs of non-starters around multiples of 30 mixing characters whose decompositions have leading, trailing or only non-starters',
  "Three hand-written strings of one kind of mark, plus listed strings that are all short enough to be unaffected.",
  ['src/stream_safe.rs', 'src/lookups.rs', 'src/tables.rs'], [('running count and one-character push-back', 'src/stream_safe.rs: StreamSafe::next'), ('per-character classification', 'src/stream_safe.rs: classify_nonstarters')],
  [('nonstarter_count/buffer', 'non-starters since the last starter; character held back behind an inserted joiner', 'src/stream_safe.rs: StreamSafe')], ['.stream_safe()'])
p('C11', 'Stream-safe checks are exact and normal forms preserve stream safety',
  "For every string, the authoritative stream-safe NFC (NFD) check is true if and only if the string is in NFC (NFD) and never has more than 30 consecutive non-starters in its NFKD; the quick stream-safe checks never answer Yes or No wrongly, and answer Maybe only if the text contains a character that could combine with a preceding one. Normalising stream-safe text to any of the four forms, or making text in NFC or NFD stream-safe, yields text that is both in that form and stream-safe.",
  ['inputs'], 'all strings; all orders of stream-safe processing and normalisation',
  "Four literal strings and one regression input.",
  ['src/quick_check.rs', 'src/stream_safe.rs'], [('quick check with non-starter counting', 'src/quick_check.rs: quick_check with stream_safe=true'), ('comparison with the stream-safe normalised stream', 'src/quick_check.rs: is_nfc_stream_safe, is_nfd_stream_safe')],
  [('nonstarter_count', 'non-starters since the last starter', 'src/quick_check.rs: quick_check')], ['is_nfc_stream_safe(_quick), is_nfd_stream_safe(_quick), compositions of .stream_safe() with the forms'])
p('C12', 'Iterators are lazy: they never read needlessly ahead of what they emit',
  "Creating any of the crate's iterators reads nothing from the source. When a normal-form iterator emits a character it has read at most one source character beyond the end of the source segment that character comes from, segments being delimited by characters that begin a normalisation boundary of that form; the stream-safe and CJK-variants iterators read nothing beyond the character they are processing. A quick check whose answer is settled as No (a character that cannot occur in the form, a combining class out of order, or too many non-starters for the stream-safe checks) reads at most one character beyond that point. So each of them works on endless or interactive sources.",
  ['inputs', 'histories'], 'all texts, all prefixes of consumption (every point between two calls of next), endless sources',
  "No unit test observes the source; only the project's libFuzzer target (not part of the test suite) looks at read-ahead.",
  ['src/decompose.rs', 'src/recompose.rs', 'src/stream_safe.rs', 'src/replace.rs', 'fuzz/fuzz_targets/streaming.rs'], [('emit as soon as a starter closes the run', 'src/decompose.rs: next'), ('emit composee when the next starter does not combine', 'src/recompose.rs: next')],
  [('buffer', 'text read but not yet emitted', 'src/decompose.rs, src/recompose.rs')], ['calls on the source iterator between calls of next'])
p('C13', 'Memory stays bounded: quick checks never allocate, streams do not grow',
  "Quick checks and the per-character functions perform no heap allocation on any input. Iterating any of the crate's iterators, or running an authoritative check, over stream-safe text of any length keeps the heap it holds below a small constant independent of the text's length, and all heap memory is released when the iterator is dropped, at whatever point of the iteration that happens.",
  ['inputs', 'histories'], 'all stream-safe texts of any length, all drop points; all texts for the allocation-free functions',
  "Tests never measure allocation and use short strings.",
  ['src/decompose.rs', 'src/recompose.rs', 'src/quick_check.rs', 'src/stream_safe.rs', 'src/replace.rs'], [('buffers are emptied and reused, not grown', 'src/decompose.rs: reset_buffer; src/recompose.rs: Purging -> clear'), ('single-pass checks', 'src/quick_check.rs')],
  [('buffer capacity', 'heap held by the inline-first vectors', 'src/decompose.rs, src/recompose.rs')], ['global allocator'])
p('C14', 'Iterators keep the iterator contract: hints, fusing, clones and Display',
  "At every point of iterating any of the crate's iterators over a source with correct hints, size_hint brackets the number of characters still to come; once the normal-form iterators have returned None they keep returning None even if the source later resumes, and the other iterators do whenever the source does. A clone taken at any point, and the text Display writes at any point, are exactly the characters still to come (whatever the formatting parameters) and do not disturb the original. Every way of consuming the iterator (next, nth, fold, collect, count, last, by reference) observes the same sequence.",
  ['inputs', 'histories'], 'all texts, every intermediate state of every iterator, all consumption methods',
  "Tests only collect whole iterators or format fresh ones; no test looks at a half-consumed iterator.",
  ['src/decompose.rs', 'src/recompose.rs', 'src/stream_safe.rs', 'src/replace.rs'], [('size_hint', 'src/decompose.rs, src/replace.rs'), ('fuse on the source, Finished state', 'src/decompose.rs, src/recompose.rs'), ('Display by cloning', 'src/decompose.rs, src/recompose.rs, src/replace.rs'), ('derived Clone', 'same files')],
  [('iterator state', 'buffers plus the source position', 'all iterator structs')], ['Iterator, Clone, Display and FusedIterator implementations'])
p('C15', 'All entry points agree, whatever the kind of source iterator',
  "The result of a transformation or check depends only on the sequence of characters: calling it on a string slice, on a single character, on any iterator of characters (exact, filtered, boxed, borrowed, chained, reversed, with or without useful size hints) or through the named constructors gives identical output. Transformations can be stacked (one of the crate's iterators as the source of another) and equal applying them one after the other to collected strings.",
  ['inputs', 'programs'], 'all texts, all source iterator types and size hints, all stackings of transformations',
  "Tests use &str and Chars (and one mapped Chars) with a handful of strings.",
  ['src/lib.rs', 'src/decompose.rs', 'src/recompose.rs', 'src/replace.rs', 'src/stream_safe.rs'], [('three trait implementations', 'src/lib.rs: impl UnicodeNormalization for &str, char, I'), ('constructors', 'new_canonical/new_compatible/new_cjk_compat_variants/StreamSafe::new')], (), ['UnicodeNormalization methods and constructors'])
p('C16', 'No input causes a panic, hang, undefined behaviour or an invalid character',
  "Through the safe public API, no input whatsoever (any characters, any length, any source iterator) makes the library panic, loop forever, execute undefined behaviour, access memory out of bounds, overflow an arithmetic operation, or produce a value that is not a Unicode scalar value.",
  ['inputs'], 'all inputs to all public functions; every scalar value and every Hangul/jamo pair through the unsafe conversions',
  "The unsafe character conversions and unchecked index arithmetic are exercised on listed values only, without a sanitizer or interpreter that would notice undefined behaviour.",
  ['src/normalize.rs', 'src/perfect_hash.rs', 'src/decompose.rs', 'src/recompose.rs', 'src/lookups.rs'], [('range checks before unchecked conversions', 'src/normalize.rs: is_hangul_syllable, decompose_hangul, compose_hangul'), ('hash value always below table length', 'src/perfect_hash.rs: my_hash')], (), ['all public operations under sanitizers'])
p('C17', 'Normalisation is pure: concurrent and interleaved use never interferes',
  "Results depend only on the input: using any number of iterators and functions concurrently from many threads, interleaving several iterators on one thread, moving a half-consumed iterator to another thread, calling the library again from within its own callbacks and sources, or repeating a call after any other history of calls gives the same results as using each alone, without data races. All iterators over sendable sources can be sent to and shared between threads.",
  ['schedules', 'histories'], 'all thread interleavings and call histories',
  "Tests use one iterator at a time and compare only fresh results; no race detector runs.",
  ['src/decompose.rs', 'src/recompose.rs', 'src/lookups.rs', 'src/perfect_hash.rs', 'src/quick_check.rs', 'src/stream_safe.rs', 'src/replace.rs'], [('no global mutable state; all state inside the iterator', 'all of src/')], (), ['results of concurrent calls against sequential ones; race detectors'])
p('C18', 'Behaviour is identical across features, build profiles and platforms',
  "Every public operation returns the same result for the same input with the std feature on or off (also in a program without the standard library), in debug and optimised builds, with and without overflow checks, on 32-bit and 64-bit and on little- and big-endian targets.",
  ['configurations', 'inputs'], 'all inputs x {std, no_std} x {debug, release, overflow checks} x {32, 64 bit} x {little, big endian}',
  "Tests run in debug on one 64-bit little-endian host only; they never compare configurations with each other.",
  ['src/lib.rs', 'src/perfect_hash.rs', 'src/normalize.rs', 'src/stream_safe.rs', 'Cargo.toml'], [('wrapping 32-bit hash widened to 64 bits', 'src/perfect_hash.rs: my_hash'), ('no_std switch', 'src/lib.rs: cfg_attr(not(feature = "std"), no_std)')], (), ['all public operations in several builds'])
p('C19', 'A panicking source or failing writer loses nothing and is reported',
  "If the source iterator panics while one of the crate's iterators is reading from it, the panic propagates, and if the source can be resumed the iterator continues to emit exactly the characters it would have emitted had the panic not happened. If the formatter's writer fails while displaying an iterator, the error is returned at once, what was written is a prefix of the correct text, and the iterator itself is unaffected. A panic in a callback given to a per-character function propagates. No failure leaks memory or changes what any later call answers.",
  ['fault_sequences', 'inputs'], 'all texts, a fault at any read of the source or any write, any number of faults',
  "No test injects a fault.",
  ['src/decompose.rs', 'src/recompose.rs', 'src/stream_safe.rs', 'src/replace.rs'], [('state is updated only after the source has answered', 'next() of the four iterators'), ('? on every write', 'Display implementations')], (), ['output after a caught panic or a failed write'])
p('C20', 'Work grows near-linearly with input length, even for hostile text',
  "The total work of fully iterating any transformation or running any check on a text of n characters is bounded by a constant times n log n, for every shape of text, including arbitrarily long runs of combining marks in any order, endless blocked marks, and maximally expanding characters.",
  ['inputs'], 'all families of texts of growing length',
  "Tests never use long inputs and do not measure work; quadratic behaviour on hostile input (denial of service) is invisible to them.",
  ['src/decompose.rs', 'src/recompose.rs', 'src/stream_safe.rs', 'src/quick_check.rs', 'src/replace.rs'], [('library sort on the pending run', 'src/decompose.rs: sort_pending'), ('buffer reset once per run', 'src/decompose.rs: reset_buffer'), ('indexed purge instead of removal from the front', 'src/recompose.rs: Purging/Finished')], (), ['instructions executed'])
p('C21', 'The table generator turns any Unicode database into a conforming library',
  "For every consistent set of Unicode Character Database files (one that respects Unicode's stability policies, so that Latin letters and the U+0300 block marks keep their established roles), the tables produced by the generator script make the library conform to exactly that database: decompositions, compositions with exclusions, combining classes, marks, assignment, quick-check values, stream-safe counts and CJK variants are all those of the database it was given, and the conformance tests it writes are exactly the rows of the database's test file. For Unicode 16.0.0 the generated tables are equivalent to the committed ones.",
  ['inputs', 'configurations'], 'all databases in the UCD format: past and present Unicode versions and arbitrary consistent variations of them',
  "The generator needs the network and is not run by any test.",
  ['scripts/unicode.py', 'src/tables.rs', 'src/perfect_hash.rs', 'src/lookups.rs'], [('full decomposition and composition computation', 'scripts/unicode.py: UnicodeData'), ('perfect hash construction shared with the lookup', 'scripts/unicode.py: minimal_perfect_hash, my_hash; src/perfect_hash.rs: my_hash')], (), ['library built from generated tables, against the database'])
if __name__ == '__main__':
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
        for x in P: f.write(json.dumps(x, ensure_ascii=False) + '\n')
    print(len(P))
