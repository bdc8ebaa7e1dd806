"""Writes properties.jsonl (kept here because JSON lines are unpleasant to edit)."""
import json, os

WF = ("A grid is well formed when every group holds one complete class hierarchy whose tiers nest without gaps, times are "
      "non-negative, and no label is the reserved '#'.")
A = "src/aligned_textgrid/aligned_textgrid.py"
T = "src/aligned_textgrid/sequences/tiers.py"
S = "src/aligned_textgrid/sequences/sequences.py"
L = "src/aligned_textgrid/sequence_list.py"
PT = "src/aligned_textgrid/points/tiers.py"
P = "src/aligned_textgrid/points/points.py"
MX = "src/aligned_textgrid/mixins/mixins.py"
TM = "src/aligned_textgrid/mixins/tiermixins.py"
W = "src/aligned_textgrid/mixins/within.py"
DF = "src/aligned_textgrid/outputs/to_dataframe.py"
CC = "src/aligned_textgrid/custom_classes.py"
WP = "src/aligned_textgrid/sequences/word_and_phone.py"
PO = "src/aligned_textgrid/polar/polar_grid.py"


def p(id, title, statement, over, text, why, files, mech, state=()):
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                        "mechanism": [{"name": x, "where": files[0]} for x in mech]}}


PROPS = [
    p("C01", "An acknowledged save holds the whole grid",
      "When saving a grid or a single tier returns without an exception, the bytes already on the disk load back, in every "
      "output format, to the same groups, tiers, tier names, labels, times and nesting as the grid had at the moment of the "
      "save (tiers that stop short of the common extent gain blank entries, and a tier name used twice gains a suffix). "
      "Saving does not change the grid, and nothing the process does to the grid afterwards changes the file.",
      ["histories", "crash_points", "inputs"],
      "every well-formed grid, every history of edits, restarts and earlier saves before the save, every format and path "
      "form, short reads and writes, a crash right after the save returns. " + WF,
      "the tests save two fixture files, never after edits, never compare what is reloaded, and never look past the buffers",
      [A, T, PT, MX], ["save_textgrid/save_as_tg build a praatio Textgrid from the live tiers and write it before returning",
                       "return_textgrid gives repeated tier names a free suffix"]),
    p("C02", "A save that fails or is cut off reports it and harms nothing else",
      "If a save meets an I/O error, an interrupt or memory exhaustion it never returns as if it had succeeded; the grid in "
      "memory, its links and every file other than the target are as before, and once the fault is over saving to the same "
      "path works and gives a complete file. If the process dies during the save, the grid can be rebuilt from the untouched "
      "input file.",
      ["fault_sequences", "crash_points", "histories"],
      "every fault point of a save: open, each written byte offset, close, each source line of the library; missing or "
      "unusable target paths; any history before it",
      "no test makes a save fail",
      [A, T, PT], ["a save works on copies of the tiers and leaves error reporting to the file layer"]),
    p("C03", "Loading gives exactly the file's content, or fails without a trace",
      "Loading a well-formed TextGrid with matching entry classes gives exactly the file's groups, tier names, entries, times "
      "and nesting, whatever the format, the encoding, the order of a group's tiers in the file and the way the file and the "
      "classes are handed over. A load that meets a fault either raises or gives that same grid; it never gives a partial or "
      "stale one, and it changes neither the file, nor the caller's classes, nor grids loaded earlier.",
      ["inputs", "fault_sequences", "histories"],
      "every well-formed TextGrid, every sequence of clean and faulty loads (read errors after any byte, short reads, "
      "interrupts at any library line, files replaced between loads). " + WF,
      "the tests load five fixture files, each once, without faults, and look at a few counts",
      [A, T, PT, S, MX], ["tiers are paired with entry classes and nested by class relation", "entry classes are cloned per "
                          "grid, so that a load cannot alter the caller's classes"]),
    p("C04", "Work on one grid never affects another",
      "What a program gets from loading, editing, reading and saving a grid is the same whether it is alone or runs "
      "interleaved, at any point inside library calls, with work on other grids that use the same entry classes - also when "
      "one of the other activities is killed in the middle of a call. The entry classes given by the caller stay as they were.",
      ["schedules", "histories", "fault_sequences"],
      "every interleaving of 2-3 threads at source-line granularity, every well-formed grid and history per thread, a kill at "
      "any line of one of them",
      "the tests are single threaded and use one grid at a time",
      [A, S, T, TM, MX], ["entry classes are cloned for each grid", "no module-level mutable state"],
      [("_cloned_classes", "the classes private to a grid", A)]),
    p("C05", "Reading is repeatable and never changes a grid",
      "Any mixture of concurrent, nested, abandoned or interrupted readers of one grid (iteration, lookups, neighbours, "
      "paths, exports, data frames, saving, pickling) get exactly the answers a single reader gets. The grid's content and "
      "links are the same afterwards.",
      ["schedules", "fault_sequences", "histories"],
      "every interleaving of 2-3 readers at source-line granularity, every combination of reading calls, a kill of a reader "
      "at any line, any well-formed grid with any history",
      "no test iterates an object twice at the same time, stops in the middle, or compares a grid before and after reading",
      [S, T, A, PT, W, DF], ["read paths build new lists and keep no cursor in the grid"]),
    p("C06", "Neighbour links always follow time order within the parent",
      "After a load and after every edit, refused edit, interrupted read or restart, the previous and following entry of each "
      "interval are its neighbours in time inside its parent (inside the tier for a top tier or a point tier), with '#' "
      "exactly at the two ends. Walking a tier by relative position, its first and last entry and each entry's position in "
      "its tier agree with the tier's order.",
      ["histories", "fault_sequences", "crash_points"],
      "every well-formed grid, every history of edits with refused edits, interrupted reads, abandoned iterators and "
      "restarts from file or pickle",
      "the tests check links after one operation on small hand-built examples",
      [MX, S, T, PT, TM], ["precedence is reset whenever a list of entries is assigned or an entry is added or removed"],
      [("fol/prev", "neighbour links", MX)]),
    p("C07", "Hierarchy, containment and identifiers always agree",
      "After a load and after every edit, refused edit, interrupted read or restart, each entry has exactly one parent, is in "
      "that parent's children exactly once, belongs to the tier it is found in, is of that tier's class, and the tier below is "
      "the concatenation of the children of the tier above. Each object's container, path and id are unique and lead back to "
      "that object, and the classes of a group's tiers form one chain from top to bottom.",
      ["histories", "fault_sequences", "crash_points"],
      "every well-formed grid, every history of edits with refused edits, interrupted reads, abandoned iterators and "
      "restarts from file or pickle",
      "the tests look at parents and ids after loading a fixture, hardly after sequences of edits",
      [S, T, W, TM, PT, A, L], ["set_super_instance/append_subset_list keep both sides", "re_relate rebuilds a group's "
                                "relations", "contains sets within on each item"],
      [("within/contains", "containment links", W), ("super_instance/subset_list", "hierarchy links", S)]),
    p("C08", "Every edit does exactly what it promises",
      "Relabelling, setting features, moving and shifting times, fusing, appending entries, points, groups and subtrees, "
      "splitting, re-parenting, removing, concatenating, cleaning up, re-relating, renaming and changing levels change the "
      "grid exactly as documented and nothing else: labels, times, features, tier names, nesting and all other groups stay as "
      "they were. This holds after any history, not only on a freshly loaded grid.",
      ["histories", "inputs", "fault_sequences"],
      "every well-formed grid and every history of edits, refused edits, interrupted reads and restarts; times are compared "
      "to 1e-9 s",
      "each edit is tested alone, on one example, with assertions on the edited entry only",
      [S, T, A, TM, PT, P, L], ["edits go through lists that re-sort and re-link, and groups that re-relate"]),
    p("C09", "A refused edit leaves no trace",
      "An edit that the library must refuse (fusing at an edge, a label function that raises, entries, tiers or groups of the "
      "wrong class, bad level changes, the wrong number of times, mismatched concatenation, unknown formats) raises. It "
      "leaves the grid and the other participants as they were: content, names, the entries themselves, links, and the "
      "outcome of every later edit.",
      ["fault_sequences", "histories"],
      "25 kinds of refused edits at any point of any history on any well-formed grid",
      "the tests check that something raises, rarely what is left behind, never later edits",
      [S, T, A, TM, L, PT], ["arguments are checked before anything is changed"]),
    p("C10", "A pickled grid comes back whole and independent",
      "At any point of a history a grid can be pickled (cloudpickle); after a restart it is restored with the same content, "
      "features, names, neighbour links, hierarchy and views, also in a new process. The original is not changed by pickling, "
      "copy and original do not affect each other, and the copy goes on behaving like the original under further edits.",
      ["crash_points", "histories"],
      "a checkpoint after any history of a well-formed grid, torn pickles before it, any history afterwards",
      "one test pickles a fixture and compares a few counts",
      [A, S, T, W, MX], ["__getstate__/__setstate__ re-create the per-grid classes"]),
    p("C11", "Changing levels keeps classes and named access consistent",
      "Adding a level next to another one or taking one out changes only that level: every other tier, label, time and "
      "feature stays, and adding a level and taking it out again restores the grid. Afterwards the class hierarchy is one "
      "chain per group, classes are found by name, tiers and groups are reached by their current names, and the caller's "
      "original classes are untouched.",
      ["histories", "inputs"],
      "every well-formed grid, every position, timing source and label choice, any number of level changes mixed with other "
      "edits, refused edits and restarts",
      "the tests add one level to one fixture and pop it",
      [A, T, S, TM], ["interleave_class and pop_class rebuild the affected groups from cloned classes"]),
    p("C12", "Derived views always agree with the entries",
      "After every step of a history the derived views - extents, label and time arrays, durations, validity checks, lookups by time, "
      "distances between points, exported tiers and TextGrids, and data frames - are what reading the entries one by one "
      "gives.",
      ["histories", "inputs"],
      "every well-formed grid with intervals and points, every history of edits, refused edits and restarts",
      "the tests compare views on freshly loaded fixtures, not after edits",
      [T, PT, P, A, DF, L, S], ["views are computed from the entries on demand, not stored"]),
    p("C13", "The order in which a grid is put together does not matter",
      "Entries, points, subtrees, tiers and groups can be added in any order, by any interleaving of producers and through "
      "any of the adding calls; adding the same object twice adds it once. The resulting grid is the one made from the "
      "complete content at once, with the same content, links and hierarchy.",
      ["schedules", "inputs"],
      "every well-formed content, every permutation of its parts, 1-4 producers, duplicates, finished or unfinished groups",
      "the tests append one entry, in time order",
      [L, S, T, PT, TM, A], ["SequenceList sorts by start time", "TierGroup arranges tiers by class relation"]),
    p("C14", "Tiers that do not fit exactly become one consistent grid",
      "Tiers with gaps, or with lower boundaries a little off the upper ones (by less than a third of the shortest entry), are "
      "related on loading and after boundaries are nudged or entries taken out. Each lower entry goes to the upper entry it "
      "overlaps most, no labelled entry is lost, reordered, lengthened or left without duration, gaps are filled with blank "
      "entries in every tier concerned, a warning tells of mismatches, and relating or reloading again changes nothing.",
      ["inputs", "histories", "fault_sequences", "schedules"],
      "1-4 levels, gaps and mismatches anywhere, five ways of loading, loads that were interrupted or failed before, "
      "interleaved loads, histories of nudges, removals, re-relating, cleaning up, edits and restarts",
      "the tests relate a handful of fixed tiers once", [T, S, A, TM],
      ["TierGroup relates by overlap, _project_up and cleanup fill gaps"]),
    p("C15", "PoLaR annotations have the values their labels encode",
      "After a load, and through relabelling, shifting, added points, moved or fused ranges, edits elsewhere, refused edits, "
      "restarts and interleaved loads, the ranges, bands, levels, certainty, overrides and the pairing of levels with turning "
      "points and ranges are what the current labels and times give.",
      ["histories", "inputs", "schedules", "fault_sequences"],
      "every PoLaR TextGrid with turning points, levels and ranges (words, phones and other point tiers optional), any history, "
      "2-3 interleaved loads, interrupted and failing loads", "one fixture, once", ["src/aligned_textgrid/polar/polar_classes.py", PO],
      ["values are computed from labels on demand", "levels and turning points point at each other"]),
    p("C16", "Class hierarchies are as requested and independent of each other",
      "The class generator returns classes with the requested names, hierarchy, kinds and return order, whatever was "
      "generated, cloned, loaded, changed or cut off before or at the same time. Class sets are independent of each other, of "
      "grids and of the library's own classes, cloning copies the whole hierarchy, and the lookup functions find it.",
      ["histories", "schedules", "fault_sequences", "inputs"],
      "every list of names and options, any history of generating, cloning, loading, re-linking, killed generators, 2-3 "
      "interleaved generators", "a few lists, one at a time", [CC], ["custom_classes and clone_classes build new classes"]),
    p("C17", "Lists, tiers, trees and groups that are in no grid keep their order, content and links",
      "Sequence lists, single tiers, entries with children and groups that were never put into a grid stay sorted by start time, hold "
      "each entry once, and report the starts, ends, labels, length, membership and extent of what is in them; appending, "
      "adding, concatenating (which shifts what is added by the end of the list), popping, removing, moving children, fusing, "
      "filling gaps, saving and pickling do exactly that to exactly the entries concerned. Entries know their neighbours, "
      "tier, place and parent at every point. Entries of another class are refused without a trace.",
      ["histories", "schedules", "fault_sequences", "inputs"],
      "every history of calls on several lists, tiers (empty or not) and trees of up to three levels that exchange entries, and on "
      "groups; calls cut off at "
      "any line; 2-3 such histories with the same classes interleaved",
      "the tests make one list or tier and call one method", [L, T, S, PT, P, W],
      ["SequenceList sorts, casts and shifts", "SequenceTier and SequenceInterval set prev, fol, within and super_instance"]),
]

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for q in PROPS:
        f.write(json.dumps(q, ensure_ascii=False) + "\n")
