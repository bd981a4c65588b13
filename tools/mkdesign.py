import json,os
D=r'''# Model checking unicode-normalization

Crate: unicode-normalization 0.1.24 (Unicode 16.0.0), `/repo`.  No file of `/repo` is changed: there are no
hooks (every check goes through the public API), no `fix:` commits, and no known findings.  Nothing is
listed under `not_applicable`: all 23 properties are decided by exhaustive enumeration of executions.

## 1. What is model-checked, and why that fits this crate

The crate is a sequential library made of

* **state machines** over an unbounded input: the reorder buffer of `Decompositions`, the
  `Composing/Purging/Finished` machine of `Recompositions`, the counter and one-character push-back of
  `StreamSafe`, the carry slot of `Replacements`, the loop of `quick_check`;
* **finite functions** looked up in generated perfect-hash tables and range matches;
* a **generator** (`scripts/unicode.py`) for those tables.

So the two shapes of model checking that apply are (a) *explicit-state exploration of a model bound to the
code*: an executable reference model of UAX #15 (`mc/src/refmodel.rs`) is run in lock step with the real
crate on every word of a bounded space; each word is a model trace that is replayed against the
implementation, so model and code are compared on **every** trace explored, not on a sample; and (b)
*stateless model checking of the real code*: all schedules of operations, consumption methods, adapters and
threads up to a bound are executed on the compiled crate itself, with a controlled scheduler for threads
(single-step traps; section 4, C20).  The finite functions are simply enumerated completely.

There is no sampling anywhere: each family of inputs has a size known in advance, and each of its members is
executed (`exhaustive: true` in the evidence; a run that could not finish a family reports a machinery error
and exits 2, never 0).

### Why small bounds are enough to be interesting

The adapters' control state depends on an input character only through its combining class, its
decomposition (lengths and classes of its parts), its composing behaviour and its quick-check values.  The
harness computes that signature for all scalar values from the UCD and keeps one or more
**class representatives** per signature (213 of them; `fam::class_reps`).  Bounds are then products of

1. *all* 1,112,064 scalar values in the contexts that distinguish states (letter/mark/Hangul/composite
   before and after),
2. *all pairs* of the 7,245 **relevant** characters (those with any non-default property, and their
   neighbours by ±1 and by 2^16, so that range ends and packed keys are on both sides of the boundary),
3. *all triples* of representatives, all words to depth 4–6 over themed alphabets, and
4. **run-structured** words: the length of a run of marks is the only unbounded counter in the state, so
   every length 0..72 (0..140 where the limit 30 matters), every power-of-two neighbourhood up to 70,000,
   every combination of three successive run lengths, every position of a displaced mark.

A bug that depends on the identity of one character, on a pair, on a class sequence, on a count, on a buffer
threshold or on a state left behind by the previous segment is inside these bounds.  A bug that needs four
*specific* unrelated characters outside the themes is not, and would have to be that artificial.

## 2. The oracle

`ucd/ucd16.txt` is a frozen copy of the data of Unicode 16.0.0 that the crate's behaviour is judged against.
It was **not** derived from `src/tables.rs`.  There is no network, so it was assembled from independent
sources present in the sandbox and cross-checked (`ucd/gen/` holds the scripts):

| data | source | cross-check |
|---|---|---|
| General_Category, assignment | `regex-syntax` 0.8.11 tables (UCD 16.0.0) in the cargo cache | Node 22 ICU 17 (differs at U+0295 only, a known 17.0 change), Python 15.0 (U+1171E only, a known change) |
| decompositions, compositions | Node 22 ICU (Unicode 17) restricted to characters assigned in 16.0 | Go x/text norm 17 (0 differences), Python 15.0 (0 differences on its characters) |
| combining classes | Go x/text norm 17 restricted to 16.0 | Python 15.0, ICU 15.1, Perl 15.0: 0 differences |
| quick-check values | derived from the UAX #15 definitions by the reference model | ICU 15.1, Go 17, Perl 15.0: 100 % agreement |
| CJK variants | StandardizedVariants rule (ideograph, VS in order of code point) | equal to upstream's 0.1.25 table |

Every run re-validates the reference model with the official `NormalizationTest` vectors shipped in
`/repo/tests/data/normalization_tests.rs` (399,300 comparisons) before it judges anything; if that fails the check
exits 2 (machinery error), it does not raise an alarm.  Conversely UCD source files rebuilt from
`ucd16.txt` (`tools/synth_ucd.py`), given to the repository's own generator, reproduce the committed
`tables.rs` byte for byte.

The model itself is as naive as possible (whole string in a vector, recursive decomposition, insertion
sort by class, quadratic composition by the definition of *blocked*), so that it shares no structure with the
streaming code.

## 3. Machinery

* `run.sh ID quick|thorough` builds `mc/` (path dependency on `/repo`, own workspace) after dropping the
  fingerprints of the crate under test, so it always sees the current tree; `run.sh replay FILE` re-executes a
  recorded counterexample.
* `mc/src/engine.rs`: a family is a size and a function index → word; eight threads take blocks of indices.
  Every operation runs under `catch_unwind`, a watchdog bounds one case's time, fatal signals and
  stack overflows are attributed to the case in flight and re-executed alone (in a fresh process) before they are
  reported.  The first failing index wins; the word is shrunk greedily while it still fails and written to
  `replays/`.
* `fam.rs` families; `refmodel.rs`, `ucd.rs` oracle; `words.rs` C01–C10, C14, C19; `data.rs` C11–C13;
  `iters.rs` C15–C18; `conc.rs` C20; `total.rs`, `alloc.rs` C21; `conf.rs` C22; `tools/c23.py` C23.
* Evidence: states (distinct final model states, hash-counted), transitions (model steps, table entries or
  calls), traces executed on both sides, every family with its size.

A check judges results only.  It never looks at source text, at private items, at numbers of allocations
(except the linear bound of C21) or at the way the work is split, so refactorings keep it quiet (section 6).

## 4. Properties

Costs are wall times on the idle 8-core sandbox (quick / thorough).

'''
P={
'C01-C04':('Normal forms',r'''*Spec* `refmodel::normalize(form, s)`; *compared* the complete output of `s.nfd()`, `nfkd()`, `nfc()`,
`nfkc()`.  *Enumerated*: all words ≤4 over a simple alphabet; every scalar value in 6×6 contexts (40.0 M);
all pairs of relevant characters (52.5 M); all triples of class representatives (9.7 M); all L×V×T Hangul
with neighbours; every composite with every class of blocker, and with every non-starter, at every gap of its
decomposition; every composing first × every class kept behind it × every composing second; every composing
first × 2..17 marks of one class × every composing second (blocking by *several* marks); ten themed alphabets to
depth 5; official vectors in contexts; mark runs (every length ≤72, thresholds 80..70,000, all
combinations of three consecutive runs, all positions of one or two displaced marks, alternating and
descending classes); long plain text with every kind of ending; de Bruijn streams that put every window of a
themed alphabet into one uninterrupted stream (history inside one adapter); all sequences of three marks and of four classes behind a starter;
composing pairs in the middle of longer text; long blocks of marks ending in every pair of classes.  Each word is consumed once by `next` and again with a switch to internal iteration after k items (every k ≤3 for
short words), so an overridden `fold` is inside the space.  *Thorough* raises the depths and
the triples (every class × every scalar value, two marks of any class between the composing pair).
*Cost* 10–20 s each / ≈10 min.  *Beyond tests*: the vectors are ≈20 k short strings with one segment each.'''),
'C05':('Algebraic laws',r'''*Spec* the laws themselves, no oracle data: idempotence; 12 form-of-form identities;
invariance under replacing each character by its decomposition and swapping each adjacent pair of
non-starters of different class (in texts longer than 12 at the first, middle and last such place); concatenation at every split; empty iff empty.  *Enumerated*: 9.4 M words
(each checked under every rewriting and every split, 4.3 G comparisons), among them long blocks of marks ending in every pair of classes.  *Cost* 56 s.'''),
'C06':('Authoritative predicates',r'''*Spec* `is_X(s) == (model X(s) == s)`, for the raw word **and** for the
normalized word and its one-change neighbours, so that both answers are reached.  128 M words as in C01 (four forms
each) plus normalized variants.  The model value, not the crate's normalizer, is the judge.  Words are also placed at each offset past a 16-byte
boundary (block-wise scanners).  *Cost* 79 s.'''),
'C07':('Quick checks',r'''*Spec* UAX #15 §9 algorithm over quick-check values derived from the definitions; plus soundness against the
model's normal form.  Same words, 1.0 G answers compared; sources with exact, unknown and one-sided size hints.  *Cost* 65 s.'''),
'C08':('Stream-safe process',r'''*Spec* UAX #15 D4 process on the model's compatibility decompositions.  *Enumerated*:
count states 0..31 are the whole reachable state: every count state × every relevant character (thorough: ×
every scalar value) × a revealing run of 31 marks; every scalar value between runs of 28..31 marks; m^i x m^j y
m^k around the limit for every decomposing x, y; every length to 140; three runs around 30.  *Cost* 26 s.
Characters whose decomposition contains starters reset to their *trailing* non-starters; both the leading and
the trailing counts are therefore observed separately.'''),
'C09':('Stream-safe predicates',r'''*Spec* normal form by the model ∧ longest non-starter run in the model's NFKD ≤30; the quick
variants exactly (No iff such a run occurs or the plain quick check says No).  Families of C08.  *Cost* 32 s.'''),
'C10':('Stream-safe × normalization',r'''*Spec* the round-trip statements, evaluated with the crate's adapters and
predicates only.  Families of C08.  *Cost* 40 s.'''),
'C11-C13':('Character functions',r'''Complete: all 1,112,064 scalar values for decompositions, class, mark, assignment.
Composition: 1.1 M² pairs do not fit into a quick run, so quick enumerates every composing first × every
scalar value, every scalar value × every composing second, BMP × BMP (4 G pairs), and the cross product of
the neighbours (any plane, one or two bits flipped) of firsts and seconds (collisions of packed keys,
truncations); thorough adds planes 0–2 × all scalar values in both orders.  *Cost* 8 s, 7–15 s / 5 min.'''),
'C14':('CJK variants',r'''*Spec* replacement table of the oracle applied to the whole string, then each of the four normal
forms of the output keeps every sequence.  Every scalar value in contexts and next to an ideograph, all pairs of CJK-relevant
characters, 88 M triples with representatives on both sides, all 1,002 ideographs in one stream, repetitions.  *Cost* 28 s.'''),
'C15':('Iterator contract',r'''Stateless exploration of *histories of calls on the real adapters*: input word × adapter × number of items
consumed (0..12, 0..40 for runs) × zero, one or two (thorough three) partial operations out of eleven (`nth(0|1|4)`, `by_ref().take`, an internal
iteration stopped half-way, `find`, `any`, `position`, `step_by`, `peekable`) × eleven terminal operations (`collect`, `fold`, `for`, `for_each`, collecting a `String`, `count`, `last`, `next` loop; and thirteen rarer ones (`eq`, `cmp`, `zip`, `extend`, `reduce`, `min`, `partition`, …) without partial operations; most also
consuming the adapter by value) × three `next`, `count` and `nth` past the end; compared with the model's sequence.  302 M histories quick.
A source that yields again after `None` and counts polls after the end is used for the four normalization adapters.  *Cost* 59 s.'''),
'C16':('size_hint',r'''At every step of every word, with exact, unknown, loose and extreme (`usize::MAX`) source hints; lower ≤ remaining ≤
upper where *remaining* is the model's.  Built with overflow checks.  *Cost* 12 s.'''),
'C17':('Clone, Display',r'''All clone points; format at every point (also with width/fill/precision
flags, which must not change the text), writers failing after every number of characters; all interleavings of two clones for up to 4 remaining items, five schedule shapes beyond.  *Cost* 17 s.'''),
'C18':('Read-ahead',r'''A counting source; the bound for every output item is computed by the model from the segment structure;
words run once and repeated without end (infinite source).  *Cost* 10 s.  The bound is an upper bound, so reading *less* is always accepted.'''),
'C19':('Entry points',r'''6 transformations × six receivers (`&str`, `char`, by-value, borrowed, boxed and `&mut` iterators) against the
public constructors, item by item.  *Cost* 27 s.'''),
'C20':('History and concurrency',r'''Explorations of the real code:
(a) *histories*: every ordered pair of 2,863 operations, every ordered triple of 261, whole-range scans in six
orders, 66,000 (thorough 140,000) repetitions of each of 229 operations followed by each of 200 others, every ordered
pair of the 7,245 relevant characters through six character functions and 5,762² compositions, one-bit neighbours
in texts; every operation on one and then on another of two *lookalike* texts (same characters in another order, other
middle, same address, behind ASCII text of several lengths); 6,456 operations cut short (panicking source, callback
or writer, failing writer, drop, forget; same or another thread), then a spread of others; operations in
destructors of thread-locals and of values dropped by a panic; expected value = the answer of a *pristine process* (fork before the first call), so a consistent
table error is not reported here but by the property it belongs to;
(b) *interleavings in one thread*: all 252 merges of 5+5 `next` calls of two live adapters for 1,764 pairs, and every operation
run between steps, inside the source and inside the emit callback;
(c) *preemption*: operation A is single-stepped (x86 trap flag); at **every machine instruction** of A a
forked snapshot runs B to completion on the other thread's behalf and then lets A finish; for short operations also two
preemptions (B itself interrupted at every instruction while A completes); results, and afterwards a probe
of further operations, are compared with pristine answers, from cold and warm state.
*Fidelity limits*: sequential consistency (no weak-memory reordering; x86 TSO effects of a relaxed cache are not explored), one
other thread, ≤2 preemptions.  *Cost* 127 s / see MANIFEST.  The expected result for this crate is that there is no shared
mutable state at all; the check shows that by exhausting the schedules, and finds a cache the moment somebody adds a wrong one.
A *correct* cache or lazily initialised table stays quiet.'''),
'C21':('Totality, memory',r'''Threads of 128 KiB stack.  The families of C01/C08 plus runs to 10^6 marks and texts of 5·10^6 characters through every operation in profile `checked`
(opt-level 3, debug assertions, overflow checks: the unchecked conversions of the crate become checked), under a
counting allocator: peak ≤ 4096 + 64 bytes × longest non-starter run, and repeated application of one operation to one text must not keep memory for good
(≥48 bytes over 64 further applications and ≥192 over the next 256 is a leak; a cache that fills up is not).  Short texts also go through consumption, formatting and `clone_from` variants.  Stack overflow, hang (watchdog) and abort are verdicts too.
A case counts as hanging only after 90 s, and only if it hangs again alone, so a quadratic (but correct) sort of the longest runs passes.  *Cost* 170 s / 6 min.'''),
'C22':('Configurations',r'''std/no_std × release/debug, four builds; each digests the results of the same families chunk by chunk (short texts also through partial
consumption, `for_each`/`last`/`count`/`nth`, `clone_from` and formatting with a failing writer); digests
compared, and a differing chunk is narrowed down to the word and the operation.  A configuration that no longer builds is a violation too.  *Cost* 80 s / 5 min.'''),
'C23':('Generator',r'''`tools/synth_ucd.py` rebuilds the UCD files from `ucd16.txt`; `scripts/unicode.py` is executed on them under several
hash seeds (local HTTP stand-in: `urlretrieve` is replaced by a copy); the crate is built with the generated `tables.rs` in a scratch
copy, and that build and the committed tables are enumerated completely (C11–C13 spaces, single-character forms, quick checks,
stream-safe counts).  The generated test module must contain every vector unchanged.  Textual identity is reported
as a note only; what decides is behaviour.  *Cost* 82 s.'''),
}
out=D
for k,(t,b) in P.items():
    out+=f'### {k} {t}\n\n{b}\n\n'
out+=r'''## 5. Planted bugs and what catches them

`seeded/` holds __N__ planted changes, each written from a property's text, each compiling, passing all stable
tests and demonstrated by `demo.sh`.  All of them are caught by the quick check of their own property.

| property | planted changes (all caught by the property's quick check) |
|---|---|
__MATRIX__

Changes that were **missed at first**, and what was strengthened:

| change | why it was missed | strengthening |
|---|---|---|
| mark-cache-race | the corrupted cache entry showed only in a later call | probes after the preemption, in several orders, from a warm state |
| ss-past-end | polls of an ended source were not judged | C15 clause: over any source, an adapter ends when its source first returns `None` |
| nfd-call-counter | needs 2^15 calls | repetition stage of C20 |
| nostd-qc | configuration differs only far from the start of a text | far-end texts in C22 |
| gen-leading | the generated module's functions are private to the crate | behavioural coverage of leading/trailing counts with the generated tables, and the crate's unit tests on them |
| nfkc-double-mark | two marks *of one class* between starter and composing mark | family "several marks of one class" |
| nfd-recursion | found, but re-execution had a larger stack and did not reproduce it | re-execution on a thread with the exploring threads' stack |
__MORE__

## 6. Staying quiet

Behaviour-preserving edits tried against all 23 quick checks (scratch patches, not kept): rewritten lookup functions, extracted
helpers, different buffer types and eager reservation, `while`/`loop`/iterator rewrites, reordered match arms, `size_hint` made tighter, `fold`
overridden, Display rewritten, generator loops restructured, insertion sort instead of a sort per block, macros for the trait methods.  The last set raised three alarms that
were mistakes of the checks and are corrected: C21 and C22 took a quadratic sort of 65,537–300,000 marks for a hang (quick runs are shorter now, limits per operation),
and C23's stand-in for `urlopen` had no response headers.  No check raises an alarm on any set now.  Points where a property was worded or a check built so that legal
freedom is not restricted:

* C15: `StreamSafe`/`Replacements` may or may not resume after a source that is not fused has ended; the property does not ask for either.
* C16: hints may be loose; only bracketing is required.
* C18: an upper bound of read-ahead; laziness beyond it is fine.
* C20: pristine-process answers as the expectation; correct caches are fine.
* C21: memory bound has a generous constant (64 bytes per pending mark + 4 KiB).
* C23: behaviour of the generated tables decides, not their text.

## 7. Findings

None: on the unchanged tree every check is quiet, and no defect of the crate was found.  There is no known-findings
file because there is nothing to list.
'''
by={}
for b in sorted(os.listdir('/verif/seeded')):
    m=json.load(open(f'/verif/seeded/{b}/meta.json')); by.setdefault(m['property'],[]).append(b)
out=out.replace('__N__',str(sum(map(len,by.values())))).replace('__MATRIX__','\n'.join(f'| {k} | {", ".join(v)} |' for k,v in sorted(by.items())))
more=open('/verif/tools/more_missed.txt').read().rstrip('\n') if os.path.exists('/verif/tools/more_missed.txt') else ''
out=out.replace('__MORE__\n',more+('\n' if more else ''))
open('/verif/DESIGN.md','w').write(out)
