"""Writes properties.jsonl and MANIFEST.json from the table below (python3 tools/gen.py)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "torch_struct/"
ALL = [T + x for x in ("distributions.py", "helpers.py", "linearchain.py", "semimarkov.py", "deptree.py", "cky.py",
                       "cky_crf.py", "semirings/semirings.py")]
FAMS = ("linear-chain, semi-Markov, projective dependency (single- and multi-root, labelled and not), "
        "span-tree and PCFG distributions")
P = []      # (property, check or None, reason if not applicable)


def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None, observe=None):
    p = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if observe:
        p["anchors"]["observe_at"] = observe
    assert len(title) <= 80, title
    P.append((p, technique, note, na))


prop("C01", "The partition function sums every structure exactly once",
     "For each of the " + FAMS + ", the log-partition equals the logarithm of the sum of exp(score) over all structures "
     "of that family and of the item's length, a structure's score being the sum of the potentials of its parts. The "
     "log-probability of a structure is its score minus the log-partition, for any number of sample dimensions, so the "
     "probabilities of all structures add up to one. Parts that belong to no structure have no influence.",
     ["inputs", "configurations"],
     "all potentials (finite), all sizes, lengths, label counts and maximum widths, batch sizes, tensor layouts and dtypes",
     "The tests compare with a brute-force enumerator on two or three random draws of sizes 2 to 4 with one random seed; "
     "whole classes of sizes (powers of two, widths beyond the length, single labels), lengths and layouts are never run.",
     ALL, [("semiring dynamic programs", T + "linearchain.py, semimarkov.py, deptree.py, cky.py, cky_crf.py"),
           ("log semiring", T + "semirings/semirings.py"), ("score and log_prob", T + "helpers.py, distributions.py")],
     "explicit-state enumeration of all structures, compared with the library on certificate and alphabet potentials",
     "Exhaustive within the listed size bounds: the one-structure certificates determine the polynomial that the program "
     "computes; trusts the transition-system definition of each structure family and torch arithmetic.",
     observe="partition, log_prob")

prop("C02", "Maximum score and argmax are exact",
     "For each of the " + FAMS + ", the reported maximum equals the largest score of any structure, and the reported "
     "argmax (and mode) is a 0/1 event that is one structure of the item's length, whose score is that maximum. When the "
     "best structure is unique, that structure is returned.",
     ["inputs", "configurations"],
     "all potentials including ties, all sizes and lengths, every structure in the role of the best one",
     "The tests check that the score of the argmax equals the max on a few random sizes, where a wrong tie-break, a wrong "
     "length or a rare shape never occurs.",
     ALL, [("max semiring", T + "semirings/semirings.py"), ("marginals by differentiation", T + "helpers.py")],
     "explicit-state enumeration of all structures; each one made the best in turn",
     "Exhaustive within the size bounds, every structure pinned as the optimum once, all alphabet assignments on tiny sizes.",
     observe="max, argmax, mode")

prop("C03", "The k best scores and structures are exact",
     "Asking for the k best values returns, in descending order, the k largest structure scores; asking for the k best "
     "structures returns k different valid structures that have those scores. Beyond the number of existing structures "
     "the values are those of an impossible structure.",
     ["inputs", "configurations"],
     "all potentials, all k from 1 to beyond the number of structures, all sizes, lengths and families",
     "The tests only look at the second best of random chains and a fixed k, never at ties, k larger than the number of "
     "structures, or lengths.",
     ALL, [("k-max semiring", T + "semirings/semirings.py"), ("one differentiation per rank", T + "helpers.py")],
     "explicit-state enumeration of all structures, full ranking compared for every k",
     "Exhaustive within the size bounds and for every k up to the number of structures plus two on small ones.",
     observe="kmax, topk")

prop("C04", "Marginals are the exact part probabilities",
     "For each of the " + FAMS + ", the marginal of every part is the total probability of the structures that contain it "
     "(expected count for grammar rules), for every item of a batch at its own length. Parts outside the item's length or "
     "in no structure have marginal zero.",
     ["inputs", "configurations"],
     "all potentials, sizes, lengths, layouts and dtypes",
     "The tests compare marginals with enumeration at one or two random sizes per family, without lengths for most of them.",
     ALL, [("marginals by differentiation", T + "helpers.py"), ("span marginals", T + "cky.py")],
     "explicit-state enumeration of all structures, exact expectation of every part",
     "Exhaustive within the size bounds; potentials are certificate, alphabet, pinned, wide and forbidding sets.",
     observe="marginals")

prop("C05", "Entropy, cross-entropy and KL divergence are exact",
     "Entropy, cross-entropy with another distribution of the same shape, and KL divergence to it equal the values defined "
     "by the probabilities of all structures. They are non-negative where they must be, KL of a distribution to itself is "
     "zero, and parts with very low potentials do not disturb them.",
     ["inputs", "configurations"],
     "all pairs of potentials, sizes and lengths, for the sequence, dependency and span-tree families",
     "The tests check entropy by enumeration for one random chain size and KL only for one chain shape; before the repair "
     "KL raised for whole families and no test noticed.",
     ALL, [("expectation semirings", T + "semirings/semirings.py")],
     "explicit-state enumeration of all structures, exact expectations",
     "Exhaustive within the size bounds over all structures and pairs of alphabet potentials.",
     observe="entropy, cross_entropy, kl")

prop("C06", "The structure count is exact",
     "The count of a distribution is the number of structures of the family at the item's length whose parts are all "
     "allowed, a part being disallowed by a potential of minus infinity.",
     ["inputs", "configurations"],
     "all sizes, lengths and allowed-part masks",
     "No test looks at count with forbidden parts or lengths.",
     ALL, [("counting semiring", T + "semirings/semirings.py"), ("count", T + "distributions.py")],
     "explicit-state enumeration of all structures under every mask of a tiny configuration",
     "Exhaustive over masks on tiny sizes; single-part and single-structure masks on larger ones; state-graph counts of large sizes.",
     observe="count")

prop("C07", "Samples follow the distribution exactly and independently",
     "Every sample drawn is one valid structure of the item's length, and each structure is drawn with exactly its "
     "probability, whatever the number of samples asked for. Different samples, and the samples of different batch items, "
     "are independent of each other.",
     ["inputs", "schedules", "configurations"],
     "every sequence of random draws, all potentials, sizes, lengths, sample counts and batch pairs",
     "The tests average a hundred samples and compare with marginals to one digit: no dependence between samples, no "
     "low-probability structure and no length is visible to that.",
     [T + "distributions.py", T + "semirings/sample.py", T + "helpers.py"],
     [("backward sampling in bit lanes", T + "semirings/sample.py"), ("sample", T + "distributions.py")],
     "exhaustive search of the tree of random choices of the real sampler, draws answered by a script",
     "Every choice sequence is explored and its probability compared with p(z); trusts the contract of torch.multinomial.",
     observe="sample")
prop("C08", "A batch is its items: no leakage between items or from padding",
     "Every answer (partition, max, argmax, k best, marginals, entropy, cross-entropy, KL, count, log-probability) for an item "
     "of a batch is the answer that the item gets alone, trimmed to its own length. It does not depend on the other items, "
     "their lengths, the order of the items or the batch size. It does not depend on the values found in the padded part of "
     "the potentials.",
     ["inputs", "configurations"],
     "all batches of items, all vectors of lengths, all contents of the padding, all orders",
     "The tests use one random length vector and random padding, and mostly compare with an enumerator that is itself run "
     "per batch.",
     ALL, [("length masking", T + "linearchain.py, semimarkov.py, deptree.py, cky.py, cky_crf.py"), ("charts", T + "helpers.py")],
     "exhaustive enumeration of length vectors, orders and padding contents of small batches on the real code",
     "Every length vector of batches of up to three items; item answers compared with those of the item alone and trimmed.",
     observe="all queries of a distribution")

prop("C09", "Label sequences, head sequences and spans convert to events and back",
     "Converting a compact representation (label sequence, segment sequence, head sequence, tree spans) to an event gives the "
     "event of exactly that structure, at the item's length, and converting the event back returns the representation. The "
     "content of the padding of a sequence has no influence, and log_prob of a converted structure is its log-probability.",
     ["inputs", "configurations"],
     "all structures of all sizes and lengths, all paddings, all batches of mixed lengths",
     "The tests do a round trip on random argmax structures at full length; lengths were silently ignored for one family.",
     [T + "linearchain.py", T + "semimarkov.py", T + "deptree.py", T + "cky.py", T + "distributions.py"],
     [("to_parts / from_parts", T + "linearchain.py, semimarkov.py, deptree.py, cky.py"), ("to_event / from_event", T + "distributions.py")],
     "exhaustive enumeration of all structures, conversions compared with the structure in both directions",
     "All structures within the bounds, every length, all padding contents when few enough.",
     observe="to_event, from_event, log_prob")

prop("C10", "Answers do not depend on what was asked or built before",
     "Asking any sequence of questions of any distributions, in any order and in either gradient mode, gives each time the "
     "answer that a fresh process would give to that question alone. The potentials given by the user keep their values and "
     "their gradient setting never makes an answer differ. Building another distribution with other settings changes nothing "
     "about the existing ones.",
     ["histories", "configurations"],
     "all finite sequences of operations on several live distributions",
     "Each test builds one distribution and asks one thing; a setting that leaks from one object to another never shows.",
     ALL, [("cached partition and lazy properties", T + "distributions.py"), ("structure configuration", T + "distributions.py, deptree.py")],
     "exhaustive enumeration of operation histories on pairs of live objects",
     "All histories of two operations over the full alphabet and of three over a core one, on 13 pairs of distributions; every operation on every length vector leaves its arguments bit-identical.",
     observe="every query; user tensors before and after")

prop("C11", "Non-projective dependency partition and marginals are exact",
     "For the non-projective dependency distribution, single-root or multi-root, the log-partition is the logarithm of the sum "
     "over all arborescences of the item's length, and the marginal of an arc (or root) is the probability of the arborescences "
     "that contain it, up to the effect of the documented smoothing constant. The gradient of the log-partition agrees with it.",
     ["inputs", "configurations"],
     "all arc scores of moderate size, all sentence sizes and length vectors, both root modes",
     "One test compares the partition at one random size against enumeration with a loose tolerance; lengths, single root with "
     "lengths and marginals of every arc are not covered.",
     [T + "deptree.py", T + "distributions.py"],
     [("matrix-tree determinant and inverse", T + "deptree.py"), ("distribution", T + "distributions.py")],
     "explicit-state enumeration of all arborescences, compared with determinant and inverse",
     "All arborescences up to 6 words listed, each favoured in turn, sums over the state graph up to 8 (thorough 10) words, all alphabet assignments up to 3 words.",
     observe="partition, marginals")
prop("C12", "Autoregressive scoring, search and sampling are exact",
     "For an autoregressive distribution over fixed-length sequences, the log-probability of a sequence is the sum over positions of "
     "the model's (optionally normalised) score of its token given the preceding tokens and the model state they produce. Greedy "
     "decoding returns a sequence that takes a best token at every position, beam search with beam k returns the k prefixes that "
     "survive keeping the k best at every position, in descending order with their true scores, and samples follow the "
     "model's distribution, independently across batch items and samples.",
     ["inputs", "configurations", "schedules"],
     "all score tables, vocabulary sizes, lengths, beam sizes, batch sizes, start tokens, gradient modes, and all random draws",
     "The tests run one fixed recurrent network and compare greedy with beam one; wrong back pointers, state reordering across beams or "
     "batch mixing need specific tables that are never built.",
     [T + "autoregressive.py", T + "semirings/semirings.py"],
     [("beam search with back pointers", T + "autoregressive.py"), ("sampling loop", T + "autoregressive.py")],
     "exhaustive exploration of the prefix tree of every small model, and of every sequence of random draws",
     "All alphabet score tables of the smallest prefix trees, general-position tables of larger ones, every beam size up to beyond "
     "the number of sequences.",
     observe="log_prob, greedy_max, beam_topk, sample, sample_without_replacement, greedy_tempmax")

prop("C13", "HMM and HSMM parameters give the model's joint probabilities",
     "Building chain potentials from HMM parameters and an observation sequence gives a distribution in which every state sequence "
     "has as its score the log joint probability of states and observations, so that the log-partition is the log-likelihood. "
     "Building semi-Markov potentials from initial, transition, duration and emission scores does the same for every labelled "
     "segmentation, with parameters shared by the batch or given per item.",
     ["inputs", "configurations"],
     "all parameter values, numbers of states, symbols and durations, observation sequences, lengths, layouts and dtypes",
     "The tests check only that the HMM call runs and compare one HSMM draw with a second implementation; an index "
     "swap that is invisible for symmetric sizes or a wrong boundary term is not seen.",
     [T + "linearchain.py", T + "semimarkov.py"],
     [("HMM adapter", T + "linearchain.py"), ("HSMM adapter", T + "semimarkov.py")],
     "exhaustive enumeration of state sequences, segmentations and observation sequences",
     "Every observation sequence of the listed sizes, all state sequences or segmentations, points in general position and alphabets.",
     observe="LinearChain.hmm, SemiMarkov.hsmm and distributions built from them")

prop("C14", "Memory-saving semirings change nothing but memory",
     "Using the checkpointing or the sharded checkpointing form of a semiring gives the same matrix products and dot products, the same "
     "gradients with respect to either operand, and the same answers of every structured model, as the plain semiring, "
     "whatever the operand shapes, broadcasting, shard size, memory layout and gradient settings.",
     ["inputs", "configurations"],
     "all base semirings, operand shapes, shard sizes, layouts and gradient settings",
     "One test compares a broadcast dot product for one shard size in the log semiring.",
     [T + "semirings/checkpoint.py"],
     [("recompute in backward", T + "semirings/checkpoint.py"), ("shard loop", T + "semirings/checkpoint.py")],
     "exhaustive enumeration of operand shapes, shard sizes and gradient settings, compared with the definition and with enumerated structures",
     "All shapes up to 3 (some 4) per axis with broadcasting, shard sizes from 1 to beyond the product, every base semiring.",
     observe="matmul, dot, their gradients; partition, max and marginals of models")

prop("C15", "Graphs and scores of parse trees agree with the tree",
     "The graph view of a batch of parse trees is the disjoint union of their trees: one node per span with the span's label, an edge from "
     "each of the two children (left first) to their parent, every node in exactly one layer and children in earlier layers. The "
     "score that any structured model gives to a set of parts is the sum of the potentials of these parts.",
     ["inputs", "configurations"],
     "all trees, labels, lengths and batches; all potentials and memory layouts",
     "No test calls the graph view; scores are only used through other quantities on contiguous tensors.",
     [T + "cky.py", T + "helpers.py"], [("graph conversion", T + "cky.py"), ("score", T + "cky.py, helpers.py")],
     "exhaustive enumeration of derivations, each unfolded from the graph and compared",
     "Every derivation of all PCFG configurations within bounds, alone, in batches, and all pairs of sampled lengths.",
     observe="CKY.to_networkx, score of each model")

prop("C16", "Answers are differentiable with the right derivatives",
     "The gradients of log-partition, maximum, k-best values, entropy, cross-entropy, KL divergence, log-probability and marginals with "
     "respect to the potentials (both arguments where there are two) are those of the definition as a sum over structures, also through "
     "earlier computation, for padded batches and with forbidden parts, where they are finite. Asking a question never writes to the "
     "gradient fields of the user's tensors.",
     ["inputs", "configurations"],
     "all potentials (away from ties for maxima), sizes, lengths, length vectors, dtypes, leaf and non-leaf potentials",
     "The tests differentiate only implicitly through marginals; second derivatives, gradients of entropies and of padded "
     "items are never compared with anything.",
     ALL, [("autograd through charts", T + "helpers.py, linearchain.py, semimarkov.py, deptree.py, cky.py, cky_crf.py"),
           ("expectation semirings", T + "semirings/semirings.py")],
     "explicit-state enumeration of all structures; the enumerated definition is differentiated and compared",
     "Every configuration and length within bounds, every structure favoured in turn, forbidden parts, all length pairs.",
     observe="torch.autograd.grad of every answer")

prop("C17", "Gumbel samples are valid structures with the right law",
     "A Gumbel sample of a distribution is, for every item, a 0/1 event of one structure of the item's length; over the noise, it has "
     "the distribution's probabilities, and the items of a batch are independent. Its temperature only affects gradients, "
     "which exist, are finite and are zero for parts outside the item.",
     ["inputs", "configurations", "schedules"],
     "all potentials, sizes, lengths, temperatures and gradient modes, and all noise values",
     "The only test calls it once and looks at nothing; correlated noise or a biased choice cannot be seen in one draw.",
     [T + "semirings/sample.py", T + "distributions.py", T + "helpers.py"],
     [("perturbed choices in backward", T + "semirings/sample.py"), ("gumbel_crf", T + "distributions.py")],
     "exhaustive exploration of all choices under controlled noise; the law of each choice located by its switching noise margins",
     "All decision trees of structures up to 5 positions and pairs of items; assumes torch's uniform generator is uniform.",
     observe="gumbel_crf, marginals with GumbelMaxSemiring")

prop("C18", "Sparsemax sums, gradients and structured marginals are exact",
     "Summing values with the sparsemax semiring along any axis gives the maximum over the probability simplex of the expected value minus half the "
     "squared norm of the weights; its gradient is the maximising weights and its second derivative that of the projection. In structured "
     "models the sparsemax marginals are the gradient of the reported value, an average of structures, and exactly the best structure when it "
     "is far enough above the others.",
     ["inputs", "configurations"],
     "all values including ties and impossible ones, all sizes, axes, layouts and dtypes",
     "The one test only checks that the call and its backward pass run.",
     [T + "semirings/sparse_max.py"], [("simplex projection", T + "semirings/sparse_max.py"), ("custom gradients", T + "semirings/sparse_max.py")],
     "exhaustive enumeration of all supports on all alphabet rows; structures enumerated as extreme points",
     "All rows of 1 to 5 elements over four alphabets on every axis; structures up to 4 positions.",
     observe="SparseMaxSemiring.sum and its gradients; sum and marginals of models with it")

prop("C19", "Alignment distributions are exact",
     "The alignment distribution's log-partition, maximum, marginals and samples are those of the sum over all monotone alignments of the two "
     "sequences.",
     ["inputs", "configurations"], "all potentials, sizes and lengths",
     "Its tests need the genbmm extension and do not run here.",
     [T + "alignment.py"], [("banded chart", T + "alignment.py")],
     na="The code needs the compiled genbmm extension, which is not installed and cannot be obtained offline, so the real code cannot be "
        "executed; a model not bound to the code would decide nothing.")

prop("C20", "Semirings obey their definition on every expression",
     "In every semiring of the library, adding elements joins the alternatives they summarise and multiplying combines them pairwise, so that every "
     "expression of sums, products, dot products and matrix products over converted values, zero and one evaluates to the summary "
     "(log-sum, maximum, k best, count, entropy, cross-entropy, KL divergence) of the alternatives it denotes. This holds along every axis, for every "
     "shape and memory layout. For sampling semirings the gradient of a sum along any axis is one choice per slice with softmax probabilities.",
     ["inputs", "programs", "schedules"],
     "all expressions, weights, tensor shapes, axes and layouts, and all random draws of the sampling semirings",
     "The tests compare two semirings on random dot products along the last axis.",
     [T + "semirings/semirings.py", T + "semirings/sample.py", T + "semirings/checkpoint.py"],
     [("semiring operations", T + "semirings/semirings.py"), ("sampling gradients", T + "semirings/sample.py")],
     "exhaustive enumeration of expressions and shapes, evaluated in the free semiring of weighted alternatives",
     "All expressions with up to 5 leaves over zero, one and weights, all shapes within bounds, 17 semirings.",
     observe="plus, times, sum, prod, dot, matmul, fill, convert, unconvert")
prop("C21", "Requests that do not fit together are refused, all others answered",
     "A linear-chain, semi-Markov, projective-dependency, span-tree or PCFG distribution whose lengths exceed the size of its potentials refuses "
     "every question with an error, and so do sequence potentials whose two label axes differ and projective-dependency potentials whose head and "
     "child axes differ or that have a wrong number of dimensions. Label, head or observation sequences with an index beyond the number of "
     "labels, words or symbols, segment sequences that begin inside a segment, and autoregressive models that return logits or search states of "
     "the wrong size are refused too. Every combination of sizes and lengths that fits is answered, in either gradient mode.",
     ["inputs", "configurations"],
     "all shapes, length vectors, questions and index sequences, fitting or not",
     "No test passes anything that does not fit, so a check that looks at one item of the batch only, or at none, goes unnoticed.",
     [T + "linearchain.py", T + "semimarkov.py", T + "deptree.py", T + "cky.py", T + "cky_crf.py", T + "autoregressive.py"],
     [("checks of potentials and lengths", T + "linearchain.py, semimarkov.py, deptree.py"), ("checks of model output", T + "autoregressive.py")],
     "exhaustive enumeration of small shapes, length vectors and index sequences, each put to the real code",
     "All shapes with axes up to 3 or 4, all length vectors from 1 to beyond the size, all questions.",
     observe="errors raised by every query and conversion")
#MORE

props, checks, na = [], [], []
for p, technique, note, reason in P:
    props.append(p)
    if reason:
        na.append(dict(property=p["id"], reason=reason))
    else:
        checks.append(dict(property=p["id"], quick_cmd="bash /verif/check.sh %s quick" % p["id"],
                           thorough_cmd="bash /verif/check.sh %s thorough" % p["id"],
                           evidence_file="evidence/%s.json" % p["id"],
                           technique="model checking: " + technique, level="model_checking", level_note=note))
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in props:
        f.write(json.dumps(p) + "\n")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(dict(version=1, setup_cmd="bash /verif/setup.sh", checks=checks, not_applicable=na,
                   notes="All checks run the library from /repo's working tree in-process (pure Python, nothing to build); "
                         "no hooks in /repo are needed."), f, indent=1)
    f.write("\n")
print(len(props), "properties,", len(checks), "checks,", len(na), "not applicable")
