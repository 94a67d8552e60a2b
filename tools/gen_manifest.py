#!/usr/bin/env python3
"""Writes MANIFEST.json from check.py's registry and the table below."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import check  # noqa

INFO = {
    "C03": ("model_checking", "exhaustive enumeration of push-down model words and documents, replayed on the real parser",
            "Exhaustive over model configurations x token words within the bound; compares the whole tree. Trusts the stand-in headers of shim/."),
    "C04": ("model_checking", "exhaustive enumeration of literal spellings and separators, replayed on the real lexer and parser",
            "Exhaustive over spellings of bounded length over a class-covering alphabet."),
    "C05": ("model_checking", "exhaustive enumeration of faults and fault combinations against a reference checker's diagnostics, replayed on the real code",
            "Every catalogued fault at every place it fits, and every combination up to the bound; compares the set of reported lines and names."),
    "C06": ("model_checking", "exhaustive enumeration of departures from valid property lists and of property orders, replayed on the real code",
            "Every departure from every directive's valid list up to the bound, decided by a table written from the language."),
    "C07": ("model_checking", "explicit-state exploration of page/block histories, every history replayed on the real code",
            "Every sequence of blocks and page breaks to the depth bound; each page is compared with the composition of its blocks drawn alone."),
    "C10": ("model_checking", "exhaustive enumeration of small solids x views, real drawing compared with an interval visibility oracle",
            "Exhaustive over small voxel solids, pairs of primitives and views; decided at margins clear of projected edges."),
    'C01': ("model_checking", 'exhaustive enumeration of single edits, short byte strings and extreme numbers, each run on the real code under ASan and UBSan',
            'Every edit of the listed kinds of documents covering each construct; trusts the sanitizers to see undefined operations.'),
    'C02': ("model_checking", 'exhaustive enumeration of all single (and pairs of) I/O faults of a run of the real binary, injected one by one',
            'Every I/O call of every run is failed in turn; the exit status and the output file are judged.'),
    'C08': ("model_checking", 'exhaustive enumeration of scales x offsets x views x models and text patterns, replayed on the real code against the page mapping',
            'Every combination of the value sets; every drawn coordinate and the page furniture are compared.'),
    'C09': ("model_checking", 'exhaustive enumeration of views x probe vectors, replayed on the real code against independently built rotations',
            'All named views and the whole angle grid; model lines and dimension points are compared.'),
    'C11': ("model_checking", 'exhaustive enumeration of hinges and strips of facets, replayed on the real code against the crease rule',
            'Every hinge angle, facing and order of the grid, away from the 11.5 degree limit.'),
    'C12': ("model_checking", 'explicit-state exploration of STL line sequences against a reference line automaton, every sequence replayed on the real reader',
            'Every edit of well-formed files up to the bound and every number spelling up to a length; acceptance and the drawing are compared.'),
    'C13': ("model_checking", "exhaustive enumeration of the arrangements of a model's facets, vertices, normals, place and size; the pictures of the real code are compared",
            'Every arrangement of the listed kinds up to the bound.'),
    'C14': ("model_checking", 'exhaustive enumeration of dim calls, replayed on the real code against the dimension geometry',
            'Every combination of points, direction, place, scale, view and label length in the value sets.'),
    'C15': ("model_checking", 'exhaustive enumeration of angle calls, replayed on the real code against the angle geometry',
            'Every pair of arms, spelling, apex, place, scale and view in the value sets.'),
    'C16': ("model_checking", 'exhaustive enumeration of point sets for the circle fit and of dia, rad and center() calls, replayed on the real code against exact circles',
            'Every query point of the grids; judged where the nearest vertices are on one circle.'),
    'C17': ("model_checking", 'exhaustive enumeration of near() queries, replayed on the real code against exact distances',
            'Every query point of the grids in every view; ties accept any nearest vertex.'),
    'C18': ("model_checking", "exhaustive enumeration of strings over PostScript's special characters in every place a string reaches the output, the output run by an independent PostScript interpreter",
            'Every string up to the length bound at every place; degenerate geometry too.'),
    'C19': ("model_checking", 'exhaustive enumeration of file-system configurations and load paths of the real binary against a reference resolver',
            'Every configuration in the bound, in a scratch directory.'),
    'C20': ("model_checking", 'exhaustive enumeration of option combinations and run histories of the real binary',
            'Every combination of option values and prior output contents.'),
    'C21': ("model_checking", "exhaustive enumeration of root assignments of the build rule's inputs; the real rule file is executed with a recording context",
            'Every assignment; the rule file is executed as is by a Python host, not by Bazel.'),
    'C22': ("model_checking", 'exhaustive enumeration of file names, messages and positions, replayed on the real reporter',
            'Every combination in the value sets.'),
    'C23': ("model_checking", 'exhaustive enumeration of format strings up to a length bound, replayed on the real code against a reference format parser and printf',
            'Every string over the alphabet to the bound for each of the four calls.'),
    'C24': ("model_checking", 'exhaustive enumeration of all pairs and triples of points and segments of a lattice on the real comparison code',
            'Every pair and triple of the lattice.'),
}
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in check.CHECKS and i in INFO:
        lv, tech, note = INFO[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py " + i,
                       "thorough_cmd": "python3 check.py %s --tier=thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": tech, "level": lv, "level_note": note})
    else:
        na.append({"property": i, "reason": "no check registered yet"})
m = {"version": 1,
     "setup_cmd": "python3 build.py",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo. Checks build /repo's working tree with the stand-in headers of shim/ into build/ (ignored by git)."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
