#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
"C01": ("exhaustive enumeration of (layout, value) pairs up to a bound, executed on the library and compared with an executable reference model", "Every layout of the bounded family and every value over the finite alphabet is dehydrated and hydrated back by the real code; decided by exhaustive enumeration. Trusts the comparison of values up to set order."),
"C02": ("exhaustive enumeration of (layout, dataset) pairs, executed on the library", "Every dataset that is a subset of the bounded statement universe of every layout in the family; the written statements must embed into the original."),
"C03": ("explicit-state exploration of datasets against an independent reference semantics", "The reference hydration is written from the documentation (all assignments of introduced variables, no search strategy shared with the library); every subset of the bounded statement universe is compared."),
"C04": ("exhaustive enumeration of values against an independent reference semantics, datasets compared up to isomorphism", "Accepted and rejected values both enumerated, including near misses of every accepted shape."),
"C05": ("exhaustive enumeration of variant combinations, orders and inputs against a reference model", "Every ordered selection of variants of the alphabet, both directions, with residue compared to the selected variant alone."),
"C06": ("exhaustive enumeration of graph selections (layout x dataset x graph) against a reference model", "Every placement of the graph selections of the bounded alphabet in nested layouts, every statement in every graph of the alphabet."),
"C07": ("exhaustive exploration of malformed and recursive inputs under a crash/stall monitor", "Each case runs under a supervisor noticing panics, aborts, stack overflows and cases that do not end."),
"C11": ("exhaustive enumeration of documents up to a number of edits, differential between the two readers and the printer", "All documents within a bounded number of edits of the grammar's sentences. One dependency defect is listed as known finding."),
"C08": ("exhaustive enumeration of statement orders, blank node renamings and irrelevant additions on the library", "Metamorphic: every permutation, renaming and addition within the bounds gives the same outcome."),
"C09": ("exhaustive enumeration of interpretations, executed on the library and compared with the term-based entry points and a reference model", "Every partition of the bounded set of terms into resources."),
"C10": ("exhaustive enumeration of definitions against an independent resolver", "The resolver is written from the documented scoping rules; compiled layouts are compared structurally."),
"C12": ("exhaustive enumeration of operation sequences on the collection builder against a map model", "All sequences of builds up to the bound."),
"C13": ("exact exploration of the product of parsed expressions with an independent matcher", "Every expression up to a length over a small alphabet and a catalogue of larger ones is parsed; the product of its automaton with the reference matcher is explored to the end, so every word of any length over the alphabet is covered."),
"C14": ("exhaustive enumeration of automata, explored in product with a subset simulation of the language", "All automata up to the stated number of states and labels; determinisation, minimisation, union, products and relabelling are compared on the full product state space."),
"C15": ("exhaustive enumeration of values, documents and number texts against exact rational arithmetic", "Trusts num-rational arithmetic and the JSON libraries as readers of their own output."),
"C16": ("exhaustive enumeration of values and tag placements, checked with an independent CBOR reader", "The encoded bytes are read back by an independent decoder written for this check."),
"C17": ("exhaustive enumeration of command lines, executed on the built tool and compared with the library", "Runs the real binary in scratch directories for every combination in the bounded product of options."),
"C18": ("exhaustive enumeration of values and datasets per derived type, compared with an executable reference semantics", "829 layouts, written as Rust types in up to two spellings; every dataset and value within the bounds is read and written by the derived code and compared with the reference semantics of the layout, through every interpretation of the terms."),
"C19": ("exhaustive enumeration of layouts, names and modules; generated types explored like those of C18 against an executable reference semantics", "Types generated from about 480 layouts are compiled into the checker and run on every dataset and value within the bounds; the declarations of every layout of every family, every name in every place of an IRI and every set of modules are checked at the library, and the tool must print the same."),
}
ready = os.environ.get("READY") or open(os.path.join(root, "tools/ready")).read()
ready = ready.split()
props = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl")) if l.strip()]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": []}
for p in props:
    if p in ready:
        t, n = T[p]
        m["checks"].append({"property": p, "quick_cmd": f"./check {p} quick", "thorough_cmd": f"./check {p} thorough",
            "evidence_file": f"evidence/{p}.json", "technique": "model checking: " + t, "level": "model_checking", "level_note": n})
    else:
        m["not_applicable"].append({"property": p, "reason": "its exhaustive check is not finished yet"})
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
