"""Rewrites the generated part of DESIGN.md (per-property decisions, seed table) from mc/checks/*.py and seeded/*/meta.json."""
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
# property -> (what is compared with what, why the exploration reaches what tests cannot)
NOTES = {
    "C01": ("the batch call's return value, the model's later answers to probes, and (for logging stubs) the exact sequence of per-row calls, against a second object driven row by row",
            "tests compare a few random batches; here every short row word, empty and long batches, every label form and every method sequence is driven, so a skipped/duplicated/reordered row or a label misalignment at any position shows"),
    "C02": ("as C01, for transformers, postprocessors, calibrators and ensemblers, with declared output dimensions",
            "all method orders and layouts instead of one happy path"),
    "C03": ("rows delivered against the stored rows (each carries a unique id), labels against a table; for shuffling the reached set of permutations against all n! permutations",
            "order/pairing bugs that need a particular n, label type or interleaved second iteration"),
    "C04": ("two runs after the same fix_seed, in one process and in two processes with different hash seeds; iterators with extra random draws at every position",
            "hidden generators, set iteration order and lazily drawn permutations are invisible to a single-run test"),
    "C05": ("exact (rational) statistic of the multiset present", "removal orders: all words of update/remove to depth 6-7 and long fill/drain lassos"),
    "C06": ("meter statistic of the last k values, recomputed from scratch", "every window size/stream length relation, reads at any subset of positions"),
    "C07": ("a list slice (object identity)", "every fill level, trimming over thousands of items"),
    "C08": ("statistic of the fitted scores recomputed from scratch", "all interleavings of fit / transform / fit-and-transform"),
    "C09": ("counting definition", "ties, window boundaries, interleaved transforms"),
    "C10": ("normal CDF via math.erf on recomputed mean/variance", "zero variance reached and left again at every position"),
    "C11": ("defining formula; for random buckets the *set* of values over all divisions into buckets", "every vector over a small value set, all divisions"),
    "C12": ("pair-counting definitions of precision/recall/AUROC/average precision", "all short label/prediction sequences with ties and all read positions"),
    "C13": ("averages of the metric over explicit windows; a stub metric logs the objects it was built with", "every window/length relation, partial windows read or not"),
    "C14": ("an explicit schedule of training sets; a recording stub detector logs each training set; isolation forests are retrained directly", "the cross product of window, sliding and initial sizes with labels and streams"),
    "C15": ("the directly trained detector", "all call words; training count and data recorded by a stub"),
    "C16": ("the same history without the extra score calls", "every subset of positions"),
    "C17": ("each object driven alone (in a forked child)", "all interleavings of two objects' call sequences"),
    "C18": ("the same history with fresh copies of all arrays", "five ownership regimes for every call word"),
    "C19": ("count of reachable data elements, second against last quarter of a long stream", "leaks only visible over long streams of a particular shape"),
    "C20": ("pairs of histories with equal horizon", "all pairs of short histories, i.e. every difference outside the horizon"),
    "C21": ("order of the scores of normal and far instance", "every group/length/direction/seed in the grid"),
    "C22": ("finiteness", "all words over extreme instances, constant lassos"),
    "C23": ("explicit counting tree; for several features a search over all trees (angelic), which must stay the same tree for life", "node masses after every word, midpoints, out-of-range values, deep trees"),
    "C24": ("formula on recomputed median/mean/deviation", "all words and long lassos"),
    "C25": ("generalized ESD reimplemented on residuals from statsmodels' STL called directly", "outliers at every position/distance; all words of fit/score"),
    "C26": ("explicit recomputation", "all words of fit/transform/fit-transform"),
    "C27": ("defining formula", "every instance over a value set"),
    "C28": ("matrix read off the unit vectors, linearity on every instance of a grid", "first call of every kind, reseeding between calls"),
    "C29": ("counting definition with exactly representable distances", "radius below/at/above every distance"),
    "C30": ("set-valued automaton of all rrcf trees that can arise (one representative per cut cell)", "all random cuts instead of one seed"),
    "C31": ("closed form for streams whose instances share no cell", "all words, window roll-over, decay"),
    "C32": ("explicit recomputation of the documented procedure", "outlier at every position; every composition pair of histograms"),
    "C33": ("a reference autoencoder ensemble, plus frozen-after-grace and used-features differential runs", "all grace settings and words"),
    "C34": ("queue / constant / range", "extreme generator words, long queues"),
    "C35": ("the documented predicate", "complete grid around every boundary"),
    "C37": ("the same word with contiguous float64 arrays", "the same numbers in another storage: integer truncation, overflow and layout assumptions"),
    "C38": ("the same word on the object that was never copied", "a restore at every point of the life of the object, followed by every short continuation"),
    "C39": ("each of the two objects driven alone in one thread", "a controlled scheduler puts the switch of threads at every executed line or instruction; tests have one thread, and even a threaded test would sample a handful of schedules"),
    "C40": ("the process-wide settings, the files and the state of both global generators before the call", "compared after every call of every word, from several settings and seeds; no test looks at anything but return values"),
    "C41": ("the object built with all documented values by name", "all subsets of omitted arguments and all positional/named splits are driven past the default window sizes; tests never fill a default window"),
    "C42": ("the same run without labels", "all label words and patterns through several windows; tests never compare labelled with unlabelled runs, and the crash found here needed an unlabelled initial window followed by a full sliding window of labelled instances"),
    "C43": ("each stage alone on recorded plain values, and stage after stage in batch", "every adjacent pair of components; tests use one component at a time. Found that LODA, xStream, both deviation models, Inqmad and the ensemblers returned one-element arrays, on which the running maximum and then the metrics (or, for Inqmad, the Gaussian tail calibrator) failed"),
    "C36": ("the same word without the rejected calls", "rejection at every position"),
}
CAUGHT_LATE = {}


def main():
    props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
    out = ["## Per-property decisions", "",
           "Each entry: what is enumerated (bounds of the quick / thorough command), the oracle, why this reaches what tests cannot, and the assumptions. Cost: every quick command takes 3-100 s on 8 cores, every thorough command minutes up to about an hour.", ""]
    for p in props:
        m = importlib.import_module("mc.checks." + p["id"].lower())
        o, w = NOTES[p["id"]]
        out += ["### %s - %s" % (p["id"], p["title"]), "",
                "- quick: " + m.BOUNDS["quick"], "- thorough: " + m.BOUNDS["thorough"],
                "- oracle: " + o, "- beyond the tests: " + w]
        if m.ASSUMPTIONS:
            out.append("- assumptions: " + "; ".join(m.ASSUMPTIONS))
        out.append("")
    out += ["## Planted changes and the checks that catch them", "",
            "Every change below builds, passes the stable tests, and has a demonstration that fails with it. All are reported by the quick command of their property.", "",
            "| change | property | needs |", "|---|---|---|"]
    sd = os.path.join(V, "seeded")
    for s in sorted(os.listdir(sd)):
        m = json.load(open(os.path.join(sd, s, "meta.json")))
        out.append("| %s | %s | %s |" % (s, m["property"], m["needs"].replace("|", "/")))
    text = open(os.path.join(V, "DESIGN.md")).read()
    a, b = "<!-- generated: tools/mkdesign.py -->", "<!-- end generated -->"
    head, rest = text.split(a)
    tail = rest.split(b)[1]
    open(os.path.join(V, "DESIGN.md"), "w").write(head + a + "\n\n" + "\n".join(out) + "\n\n" + b + tail)


main()
