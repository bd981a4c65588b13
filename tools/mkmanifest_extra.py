EXTRA_T = {
 "C12": "complete enumeration of composition pairs (participants x all scalars, BMP x BMP, one- and two-bit neighbours of composing pairs in any plane; thorough: planes 0-2 x all scalars both ways)",
 "C20": "stateless model checking of the real code: every single preemption at machine-instruction granularity (two preemptions for short lookups), every ordered pair/triple history, every merge of two live adapters, repetitions of each operation, every ordered pair of the relevant characters through the character functions",
 "C21": "exhaustive bounded enumeration of inputs through every operation in a build with overflow, debug and UB-precondition checks, under a counting allocator",
 "C22": "exhaustive bounded enumeration of the same inputs in four build configurations, results compared chunk by chunk",
 "C23": "the generator executed on the UCD, then complete enumeration of the input spaces of every table of the crate built from its output (and of the committed tables) against the UCD",
}
EXTRA_NOTE = {
 "C20": "Preemption points are single-stepped machine instructions of the release build on x86-64 under sequential consistency (one other thread, at most two preemptions); weak-memory reorderings and three threads are outside. Histories up to three operations of the stated set, whole-range scans, 66 000 (thorough 140 000) repetitions of one operation, all ordered pairs of the 7 245 relevant characters through the six character functions, operations cut short, and lookalike texts. The expected answer is always the one a pristine process gives.",
 "C21": "Every case in the stated families is executed; nothing is sampled. Runs to 10^6 marks and texts to 5*10^6 characters are covered for the stated patterns only. Memory bound checked: 4096 + 64 bytes per non-starter of the longest run.",
 "C22": "Four builds (std/no_std x release/debug) on x86-64; other targets and compilers are outside.",
 "C23": "The published UCD files are rebuilt from ucd/ucd16.txt (offline); on the committed tree the generator's output on them is textually identical to the committed tables.",
}
