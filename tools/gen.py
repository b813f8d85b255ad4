#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the specifications below."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from table import PROPS  # noqa

S = "rust/src/sequences/"
F = "rust/src/find/"
SPEC = []
def p(id, title, statement, text, why, files, mech, observe, over=("inputs",), note=""):
    SPEC.append(dict(id=id, title=title, statement=statement,
        quantifier={"over": list(over), "text": text}, why_tests_cant=why,
        anchors={"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech], "observe_at": observe, "hook_needed": None}))

p("C01", "Encodings of a quadruple round-trip",
  "A quadruple of +-1 sequences, its quaternion sequence and its one-character-per-entry text determine one another: converting to quaternions and back, or writing text and reading it back, always returns the original quadruple and never changes its length. The same holds for a single +-1 sequence and its +/- text, and every one of the 24 text symbols denotes exactly one unit quaternion.",
  "every quadruple of +-1 sequences of each length in the bounds; all 24 symbols; every single sequence",
  "tests convert a handful of fixed sequences; the 16-way tables can be wrong in an entry those sequences do not contain",
  [S + "williamson.rs", S + "sequence.rs", S + "rowsum.rs", F + "find_write.rs"],
  [("16-entry quadruplet/quaternion tables and their inverses", S + "williamson.rs"), ("24-symbol alphabet", S + "sequence.rs"), ("+/- text", S + "rowsum.rs, " + F + "find_write.rs")],
  ["QuadSeq::to_qs / from_pqs", "QS::to_string_raw / from_str", "sequence_to_string / string_to_sequence"])
p("C02", "A quadruple is QT exactly when its quaternion sequence is perfect",
  "For every quadruple of +-1 sequences, the associated quaternion sequence has vanishing periodic autocorrelation at every non-zero shift exactly when the four sequences are complementary and satisfy the quaternion-type cross-correlation condition; the perfection test says so, as do both cross-correlation verifiers, for whatever order the four sequences are passed in.",
  "all 2^(4n) quadruples for each length n in the bounds (up to 2^160), all labelled orders of the four sequences",
  "tests try a few known perfect sequences and a few others; a verdict wrong on one shift or for one order shows only on specific sequences",
  [S + "williamson.rs", S + "sequence.rs", S + "matching.rs"],
  [("periodic autocorrelation over quaternions", S + "sequence.rs"), ("cross-correlation verifiers", S + "williamson.rs, " + S + "matching.rs")],
  ["QS::is_perfect", "QuadSeq::verify_cross_correlation", "matching::verify_cross_correlation"])
p("C03", "Validity verdicts equal the mathematical definitions",
  "For every quadruple, the verdicts 'periodic complementary', 'amicable', 'symmetric', 'quaternion-type', 'Williamson-type' and 'Williamson', and the auto- and cross-correlation values behind them, equal their mathematical definitions. Hence every Williamson quadruple is Williamson-type and every Williamson-type quadruple is quaternion-type.",
  "all quadruples of each length in the bounds, all shifts",
  "tests check verdicts on a few sequences; a missed shift or a missed pair of sequences only shows on quadruples violating exactly that one equation",
  [S + "williamson.rs", S + "sequence.rs", F + "find_write.rs"],
  [("verify / is_* predicates", S + "williamson.rs"), ("symmetry filter", F + "find_write.rs")],
  ["QuadSeq::verify*", "QuadSeq::is_*", "periodic_autocorrelation", "cross_correlation", "QS::is_symmetric", "find_write::symmetric"])
p("C04", "Equivalence operations preserve validity",
  "Applying any of the equivalence operations which the tool associates with a sequence type to any valid quadruple of that type only ever yields valid quadruples of that type.",
  "all valid quadruples of each type for each length in the bounds, every operation of the type, every image",
  "tests apply the operations to a few known sequences of few lengths; preservation for all valid quadruples of e.g. each even length is a theorem about the operation's index arithmetic",
  [S + "equivalence.rs", S + "symmetries.rs"],
  [("operation lists per type", S + "symmetries.rs"), ("the operations", S + "equivalence.rs")],
  ["SequenceType::equivalences()", "equivalent_*"])
p("C05", "Equivalence operations yield exactly their documented images",
  "Each equivalence operation returns, for every quadruple, exactly the set of quadruples its definition names (the quadruple itself, and every image under the cyclic shifts, half shifts of one or two or all sequences, negations, alternate negations at even length, exchanges, and index automorphisms it stands for), with no image missing and none added. The class computed from precomputed symmetries equals the class computed by closing under the operations.",
  "all quadruples of each length in the bounds, every operation",
  "tests compare with hand-written sets for a few sequences; a missing or extra image for one length, tag or coprime multiplier is invisible there",
  [S + "equivalence.rs"],
  [("operations", S + "equivalence.rs"), ("symmetry group and fast class", S + "equivalence.rs")],
  ["equivalent_*", "generate_symmetry_group", "generate_equivalence_class", "generate_equivalence_class_fast"])
p("C06", "Canonical forms are canonical",
  "The canonical form of a quadruple lies in its orbit, and all quadruples of one orbit (under negate-and-swap for quaternion-type, under negations and exchanges for Williamson and Williamson-type, and under the full group for the full canonical form) have the same canonical form; taking it twice changes nothing. Consequently reducing a list up to equivalence keeps exactly one valid representative of every class in the list.",
  "all quadruples of each length in the bounds; all generators of the group",
  "tests check a few classes; invariance must hold for all inputs including ties (duplicate or opposite sequences, first entries of either sign)",
  [S + "equivalence.rs", F + "find_unique.rs"],
  [("ns_canonical / sn_ss_canonical / qt_canonical", S + "equivalence.rs"), ("reduction", F + "find_unique.rs")],
  ["ns_canonical", "sn_ss_canonical", "qt_canonical", "reduce_to_canonical_reps", "equiv", "reduce_to_equivalence*"])
p("C07", "The comparison of quadruples is the lexicographic order",
  "The 'less than' on sequences and on quadruples is the lexicographic order (W before X before Y before Z, entries compared as numbers), a strict total order, so the minimum of a class does not depend on the order in which it is enumerated.",
  "all pairs of sequences/quadruples of each length in the bounds",
  "tests never compare more than a few pairs; ties in a long prefix are not sampled",
  [S + "equivalence.rs", S + "williamson.rs"], [("seq_less_than / will_less_than", S + "equivalence.rs")],
  ["seq_less_than", "will_less_than", "generate_canonical_representative"])
p("C08", "Every possible rowsum quadruple is represented, and only those",
  "For every length n and type, every quadruple of integers of the parity of n whose squares sum to 4n can be brought by the type's rowsum symmetries to a member of the generated list; every member of the list is such a quadruple, in the tool's normal order, and none is listed twice. Every quadruple of sequences satisfying the sum condition can be brought by its type's operations to one accepted by the rowsum-order test.",
  "all integer quadruples with squares summing to 4n, for each n in the bounds; all sign patterns and orders",
  "tests check a few n; losing one decomposition silently loses whole classes of results",
  [S + "rowsum.rs"], [("sum_of_four_squares enumeration", S + "rowsum.rs"), ("parity filter and sign variants", S + "rowsum.rs")],
  ["sum_of_four_squares", "generate_rowsums", "has_sorted_rowsums"])
p("C09", "The sequences with a given sum are enumerated exactly once",
  "For every length and sum, the enumeration of sequences contains every +-1 sequence of that length and sum exactly once, and nothing else; for an impossible sum it is empty.",
  "every +-1 sequence of each length in the bounds, every sum",
  "tests compare a few cases; one lost or doubled sequence changes results silently",
  [S + "rowsum.rs"], [("recursive enumeration", S + "rowsum.rs")], ["generate_sequences_with_rowsum", "rowsum"])
p("C10", "The matrix of a QT quadruple is Hadamard",
  "For every quaternion-type quadruple of length n the 4n x 4n matrix built from it has +-1 entries and mutually orthogonal rows, the quadruple can be read back from it, and the Hadamard test accepts a +-1 matrix exactly when its rows are mutually orthogonal. Normalising a Hadamard matrix gives an equivalent matrix whose first row and column are all +1.",
  "all QT quadruples for each length in the bounds; all +-1 matrices up to the bound",
  "tests build a few matrices; the 16 block signs/transposes must be right for every quadruple",
  [S + "matrices.rs"], [("block layout", S + "matrices.rs"), ("verify", S + "matrices.rs"), ("dephase", S + "matrices.rs")],
  ["HM::from_williamson", "HM::from_sequence", "HM::copy_block_to", "HM::verify", "HM::get_qts", "HM::dephase(d)"])
p("C11", "Perfect quaternion sequences give normalised quaternionic Hadamard matrices",
  "The circulant matrix of a perfect quaternion sequence is a quaternionic Hadamard matrix, and normalising it keeps that property and makes its first row and column 1. The quaternionic Hadamard test accepts exactly the matrices whose rows are orthogonal, and the non-commutativity test is true exactly when two entries of the core do not commute.",
  "all sequences over the 16 quaternions of each length in the bounds; all small matrices",
  "tests convert a few sequences; the side on which conjugates multiply matters only for non-commuting entries",
  [S + "matrices.rs", S + "sequence.rs"], [("from_pqs / dephase / dephased / verify", S + "matrices.rs")],
  ["QHM::from_pqs", "QHM::dephase(d)", "QHM::verify", "QHM::contains_non_commuting_elements"])
p("C12", "Both halves of a valid quadruple get equal match keys",
  "For every valid quadruple of each type, each way of pairing its four sequences, and both matching methods, the key written for the first pair equals the key written for the second; and any two pairs whose keys are equal form a quadruple which satisfies the complementarity (and, for quaternion-type, the cross-correlation) equations. The transform-based and direct computations of the correlations agree.",
  "all quadruples of each length in the bounds, all pairings, both matching methods, all types",
  "tests compare keys for a few pairs; a wrong sign for one pairing loses every result of that pairing",
  [S + "matching.rs", F + "find_write.rs", S + "fourier.rs"],
  [("compute_* functions", S + "matching.rs"), ("sign conventions by tag", S + "matching.rs"), ("key text", F + "find_write.rs")],
  ["write_seq_pairs", "compute_*", "generate_matching_table"])
p("C13", "Joining sorted pair files finds exactly the valid matches",
  "Given two pair files sorted bytewise, the join returns exactly the quadruples made of one line of each file with equal keys which are valid for the requested type, each as often as its pair of lines occurs; no match is lost whatever the keys, signs, key lengths and multiplicities, and each index selects the sequence it was written for.",
  "all pair files within the bounds on lines and key contents; all contents of the sequence lists; both orders of files and pairings",
  "tests never run the join; lost matches leave no trace in the output",
  [F + "find_write.rs"], [("merge join", F + "find_write.rs"), ("line parser", F + "find_write.rs"), ("index lookup", F + "find_write.rs")],
  ["join_pairs_files", "get_line_from", "get_sequences"])
p("C14", "Only verified sequences reach the results",
  "Whatever the pair and sequence files contain, every quadruple the join step returns or writes to a result file is a valid quadruple of the requested type, and for Williamson-type runs the extra quaternion-type list contains only quaternion-type quadruples.",
  "all file contents within the bounds",
  "tests never run the join step end to end",
  [F + "find_write.rs", F + "find_unique.rs", "rust/src/main.rs"], [("verification inside the join", F + "find_write.rs"), ("result writer", "rust/src/main.rs")],
  ["join_pairs", "find_write_quad_seq"])
p("C15", "Output files are complete or the run fails loudly",
  "When a step finishes without an error, every file it was to produce holds its whole contents, even if the operating system accepts only part of the data in a write call; a write that cannot be completed, a file that cannot be created or an input that cannot be read completely makes the step fail instead of leaving silently truncated or incomplete results.",
  "every fault (failed, interrupted or partial write, failed create, failed, interrupted or short read) at every call within the bound, every step that writes files",
  "tests never inject partial writes",
  [F + "find_write.rs", "rust/src/main.rs", S + "matrix_equivalence.rs", F + "find_with_rowsum.rs"], [("file writes", F + "find_write.rs, rust/src/main.rs")],
  ["write_rowsums", "write_sequences", "write_seq_pairs", "find_write_quad_seq", "convert_qs_to_matrices", "hadamard_equivalence_from_file"], over=("inputs", "fault_sequences"))
p("C16", "The operator model of the quaternions is faithful",
  "The map from quaternions to 2x2 complex matrices respects sums, products and conjugation; operator sum, scaling, tensor product and conjugate transpose satisfy their definitions, as does the tensor product of two unitary error objects including its recorded size.",
  "all quaternions with small integer or half-integer coordinates within the bounds, all small operators",
  "tests check a few products",
  [S + "mum.rs"], [("quaternion_to_operator", S + "mum.rs"), ("tensor", S + "mum.rs")],
  ["quaternion_to_operator", "Operator::*", "HMUO::tensor", "MUM::from_qhm", "HMUO::from_qhm"])
p("C17", "The generated equations hold exactly for the completions",
  "For every two given sequences, the linear and non-linear pseudo-Boolean equations generated for the other two are satisfied by a 0/1 assignment exactly when the four sequences form a quaternion-type quadruple with the requested sums; every variable mentioned is one of x1..x2n.",
  "all quadruples of each length in the bounds, all six positions of the two given sequences",
  "tests compare three strings; the equations are never evaluated",
  [S + "equations.rs"], [("equation generators", S + "equations.rs")], ["generate_equations", "equations_crosscorrelation", "generate_equation_from"])
p("C18", "Products of sequences are their definition and preserve perfection",
  "The product of two quaternion sequences of coprime lengths p and q has length pq and its entry t is the product of the entries t mod p and t mod q; the same holds for products of matrix sequences with the tensor product. If both factors are perfect and the second takes real values only, the product is perfect.",
  "all pairs of sequences over the 16 quaternions for the lengths in the bounds",
  "tests multiply a few sequences",
  [S + "product.rs"], [("index arithmetic", S + "product.rs")], ["sequence_product", "mum_product"])
p("C19", "The pair step writes exactly the files the join step reads",
  "For every length, type, pairing and rowsum, the pair step writes, in the directory named after the rowsum, one file per sequence of the quadruple listing exactly the candidate sequences with that sum, and two pair files named after the chosen pairing, each with one line per pair that passes the filter; running the pairs one at a time produces the same files. The join step, given those files, reads back the same lists and pairing.",
  "all pairings, types and rowsums within the bounds",
  "tests never run these steps",
  [F + "find_write.rs"], [("write_pairs_rowsum / write_pair_single_rowsum", F + "find_write.rs"), ("get_order_from_dir / get_sequences_from_dir", F + "find_write.rs")],
  ["write_pairs_rowsum", "write_pair_single_rowsum", "create_rowsum_dirs", "get_sequences_from_dir", "get_order_from_dir"])
p("C20", "The graph of a matrix encodes exactly its Hadamard-equivalence structure",
  "The graph used to decide Hadamard equivalence has, for every +-1 matrix, exactly the edges of its definition: row and column vertices in both signs, joined according to the sign of the entry, rows distinguished from columns. Hence negating or exchanging rows or columns of the matrix renames the vertices of its graph, and different matrices have different graphs. The reduction keeps every matrix whose label differs exactly once, and converting a result file writes the Hadamard matrix of every listed sequence exactly once in a readable form and refuses sequences which are not of the type.",
  "all +-1 matrices of each order in the bounds",
  "tests compare a few matrices",
  [S + "matrix_equivalence.rs"], [("graph_from_hm", S + "matrix_equivalence.rs")], ["graph_from_hm", "reduce_to_hadamard_equivalence"])
p("C21", "Exhaustive searches visit every candidate exactly once",
  "The exhaustive searches list and count exactly the perfect sequences over the 16 (or 24) quaternions whose first entry is 1 and which have the requested symmetry (none, I, II or III), each once; the Williamson and Williamson-type searches list exactly the valid quadruples which begin with -1; the exhaustive list of quadruples contains every quaternion-type quadruple of the length exactly once, and its reduction one of each class.",
  "every candidate sequence of each length in the bounds, symmetry types none, I, II, III",
  "tests never run the searches",
  [F + "find_naive.rs", F + "find_optim.rs", F + "find_williamson.rs", F + "find_unique.rs", S + "sequence.rs"], [("recursive search", F + "find_*.rs")],
  ["find_naive::find", "find_optim::find", "find_williamson::find", "find_unique::find_aux"])
p("C22", "Spectral filters never discard part of a valid quadruple",
  "No pair of sequences that belongs to a quaternion-type quadruple of length n is discarded by the power-spectrum filters used with bound 4n (nor a single sequence by the single-sequence filter), and the enumerated indices and transforms handed on belong to that pair.",
  "all quadruples of each length in the bounds",
  "tests filter a few sequences; a filter that is too strict silently loses results",
  [S + "fourier.rs"], [("iter_over_* filters", S + "fourier.rs")], ["iter_over_enumerate_filtered_couples_psds", "iter_over_filtered_couples", "iter_over_filtered_dft"])

p("C23", "A run finds every class of valid quadruples",
  "Running the pair step, sorting the pair files bytewise and joining them finds, in every rowsum directory, exactly the valid quadruples with that rowsum, each once; the result file of the run lists exactly one valid quadruple of every equivalence class of the type, and for Williamson-type runs the additional list contains exactly one of every class up to quaternion-type equivalence. This holds for every pairing and matching method and whatever the order in which the directories list their files.",
  "all quadruples of each length in the bounds, all types, pairings, matching methods and both directory orders",
  "tests never run the steps together; each step can be right while their conventions disagree",
  [F + "find_write.rs", F + "find_unique.rs", "rust/src/main.rs", S + "matching.rs", S + "rowsum.rs"],
  [("pair step", F + "find_write.rs"), ("join step", F + "find_write.rs"), ("reduction and result files", "rust/src/main.rs")],
  ["write_pairs", "join_pairs", "find_write_quad_seq"])
p("C24", "A command does what its arguments say",
  "Every command of the program performs exactly the step it names for the type, length, sums, matching method, pairing and pair given, in that order; an unknown type or matching method is refused. The command amicable succeeds exactly when every sequence of the result file is of quaternion type and amicable; the conversion to quaternion matrices writes the dephased matrix of every listed sequence, in their order.",
  "every combination of arguments within the bounds; every content of the file the command amicable reads",
  "tests call library functions only; the command line is never exercised",
  ["rust/src/main.rs"], [("main", "rust/src/main.rs"), ("verify_qts_eq_wts", "rust/src/main.rs"), ("convert_qs_to_matrices", "rust/src/main.rs")],
  ["main", "verify_qts_eq_wts", "convert_qs_to_matrices", "qhm_write_all"])

NA = [
]
LEVEL = "model_checking"

def main():
    out = open(os.path.join(ROOT, "properties.jsonl"), "w")
    checks, na = [], []
    for s in SPEC:
        if s["id"] in PROPS:
            checks.append({"property": s["id"], "quick_cmd": "python3 check.py %s" % s["id"], "thorough_cmd": "python3 check.py %s --tier thorough" % s["id"],
                "evidence_file": "evidence/%s.json" % s["id"],
                "technique": "symbolic execution of the compiled LLVM IR with SMT (qsym + z3/cvc5)", "level": LEVEL,
                "level_note": ("Bounded, exhaustive within bounds: " + PROPS[s["id"]]["bounds"] + " Outside: " + PROPS[s["id"]].get("outside", "larger sizes.") + " Trusts the qsym engine, rustc's IR, the SMT solvers, and the stand-ins listed in DESIGN.md; counterexamples are replayed natively.")})
        elif s["id"] in dict(NA):
            pass
        else:
            continue
        out.write(json.dumps(s) + "\n")
    for i, r in NA:
        na.append({"property": i, "reason": r})
    m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo: the checks compile a copy of /repo's current source with harness modules appended. See DESIGN.md."}
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
main()
