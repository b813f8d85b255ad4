"""Modules, bounds and exclusions of every claimed property."""
PROPS = {
    "C01": {"modules": ["c01"], "bounds": "lengths 1..12 for quaternion and text round trips, all 24 symbols.", "outside": "longer sequences."},
    "C02": {"modules": ["c02"], "bounds": "all quadruples of lengths 1..24, 30, 32, 40 (perfection) and all labelled orders; the mirrored convention up to length 6.", "outside": "other lengths."},
    "C03": {"modules": ["c03"], "bounds": "all quadruples of lengths 1..26, 28, 30, 32, 40; correlation values at lengths up to 257; verdicts at lengths up to 128 with a few free entries.", "outside": "other lengths."},
    "C04": {"modules": ["c04"], "bounds": "all valid quadruples of lengths 1..16, 18, 20, 21, 22, 24, 25, 28, 30, 32, 36, every type, every image of every operation.", "outside": "other lengths."},
    "C05": {"modules": ["c05"], "bounds": "all quadruples of the lengths listed in the evidence (1..40).", "outside": "other lengths."},
    "C06": {"modules": ["group", "c06"], "bounds": "canonical forms: all quadruples of lengths 1..5 and orbit membership for 6 and 8; reductions of one and two sequences: lengths 1..4 (5..7 in the thorough tier) with the stated number of free sequences. Classes from labels (shifts only): 1..31 at seven lengths.", "outside": "longer sequences; lists of more than two symbolic sequences."},
    "C07": {"modules": ["c07"], "bounds": "all pairs of sequences of length up to 24 and quadruples up to 12.", "outside": "longer sequences."},
    "C08": {"modules": ["c08"], "bounds": "every length 1..64: all integer quadruples with squares summing to 4n, all sign patterns and orders.", "outside": "longer sequences."},
    "C09": {"modules": ["c09"], "bounds": "every length 1..11 (12 thorough), every sum of every parity, every sequence.", "outside": "longer sequences."},
    "C10": {"modules": ["c10"], "bounds": "matrices of quadruples of lengths 1..5 (8 thorough); the Hadamard test on all +-1 matrices of order up to 8 and on orders 130 and 256 with a few free entries; normalisation to order 16.", "outside": "larger matrices."},
    "C11": {"modules": ["c11"], "bounds": "all quaternion sequences over the 16 quaternions of lengths 1..6 (8 thorough); normalisation to 5 and its validity to 3; commutation to 3.", "outside": "longer sequences."},
    "C12": {"modules": ["pipe", "c12"], "bounds": "direct keys: all quadruples of lengths 1..16, 18, 20, 24, all 24 orders; transform-based and spectral keys: lengths 1, 2, 4, where the transform is exact; the keys in the pair files, all quadruples of lengths 1..3 (4 thorough), with rounding errors of +-2^-24 of either sign in up to four transforms.", "outside": "floating-point rounding of FFTW at other lengths; rounding errors above 2^-24."},
    "C16": {"modules": ["c16"], "bounds": "all quaternions over the 16 symbols and small half-integer coordinates; operators with entries of a few bits, sizes 1..6 and tensor products up to 6x6.", "outside": "rounding in single precision beyond exactly representable entries."},
    "C18": {"modules": ["c18"], "bounds": "products of sequences of lengths up to 9 x 5, all quaternions of the alphabet; perfection for coprime lengths up to 5 x 4; matrix sequences of lengths up to 4 x 5 with operators of size 2 and 3 and small complex entries.", "outside": "longer sequences; entries that are not exactly representable."},
    "C19": {"modules": ["pipe", "c19"], "bounds": "every rowsum of lengths 1..9 (10 thorough), all types, pairings and both matching methods for the pair step; single pairs, creation and reading back for lengths 1..7, both directory orders; rowsum lists for nine lengths up to 60. Every sequence of the length is a symbolic candidate.", "outside": "longer sequences; pairing left out in the single-pair step; the shell scripts around the program."},
    "C13": {"modules": ["pipe", "c13"], "bounds": "two pair files of up to four lines each, keys of up to three numbers with signs and several digits where one key may be a prefix of another, all key contents (digits of 1-3 bits), all indices, all contents of the sequence lists, indices of one to three digits, lengths 1..4, all three types, several orders of the tags.", "outside": "more lines; longer keys; lines which are not of the written form."},
    "C23": {"modules": ["group", "pipe", "c23"], "bounds": "the pair step, bytewise sort and join: every rowsum, type and pairing for lengths 1..5 and one pairing each for 6 and 7, all quadruples; the complete run up to the result files: lengths 1..5 of all types and 7..9 for Williamson (6, 7 and 10 thorough).", "outside": "longer sequences; the shell scripts (the sort is modelled as bytewise); rounding of the real FFTW (the stand-in computes the transform by its definition in f64)."},
    "C15": {"modules": ["pipe", "c15"], "bounds": "every step that writes files (rowsum list, pair step, single pairs, directory creation, join of all types, both matrix conversions, Hadamard classes, exhaustive list) for lengths 1..3 (5, 7 for the rowsum list): one write call, chosen freely, that fails, is interrupted or accepts any of 14 partial amounts; two consecutive faults; one create call that fails; one read call that fails, is interrupted or is short.", "outside": "more than two faults in a run; faults of rename, sync or close (the code uses none); contents other than those of the fault-free run."},
    "C22": {"modules": ["c22"], "bounds": "every complementary quadruple of lengths 1, 2 and 4 through each of the four filters; transforms, spectra and listed pairs of every two lists of up to three sequences of those lengths; rounding errors of +-2^-24 on the real parts of the transform at length 2.", "outside": "other lengths in the filter harnesses (their transforms are not exactly representable; the generation harnesses of C12 and C19 pass through the filters there); rounding errors above 2^-24."},
    "C21": {"modules": ["group", "pipe", "c21"], "bounds": "searches over the 16 quaternions: lengths 1..4 without symmetry, up to 8 with symmetry; over the 24: lengths 1..4 and up to 8; quadruples: lengths 1..4, reduced list 1..4; Williamson and Williamson-type searches 1..5. The search has no other input; every candidate of the length is symbolic.", "outside": "longer sequences; symmetry IV (the sequence the search starts from does not have it, and no perfect sequence has it); real parallel schedules (the stand-in for rayon runs in order)."},
    "C20": {"modules": ["pipe", "c20"], "bounds": "all +-1 matrices of orders 1..4 and 8 for the graph, 1 and 2 for the reduction; conversion of one sequence of lengths 1..3 of every type, of two (three thorough) of length 1.", "outside": "the canonical labelling of the graph-canon crate itself (a stand-in labels graphs equal exactly when they are equal as labelled graphs); larger orders."},
    "C14": {"modules": ["pipe", "c14"], "bounds": "one rowsum directory in which every pair has the same key: all contents of the sequence lists for lengths 1..5 (one or two sequences per list) when no combination is valid; arbitrary contents for length 1, and for length 2 with one or two lists fixed; all types, three pairings, both directory orders.", "outside": "several directories at once (C23); longer lists (C13 covers the verification inside the join for longer ones)."},
    "C24": {"modules": ["pipe", "c24"], "bounds": "every command; all types, matching methods (and an unknown one of each), pairings (and an unknown one), both pairs, eight arrangements of four different sums; lengths 1..4; amicable: all contents of one line of lengths 1..4 or two lines of length 1 and 2; conversion: all contents of two lines of length 1 and one line of length 2.", "outside": "missing or superfluous arguments; the text the program prints; the shell scripts."},
    "C17": {"modules": ["pipe", "c17"], "bounds": "all contents of the two given sequences and all assignments of the variables for lengths 1..5, all six positions, two or three quadruples of sums per length (one for length 5, three thorough); single equations with three fixed coefficient lists and all assignments.", "outside": "other sums (they are numbers the system copies to the right side of two equations) and longer sequences; the sums of the given sequences themselves, which the system takes for granted; types other than quaternion (the program panics for them)."},
}
