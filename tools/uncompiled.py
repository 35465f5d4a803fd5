#!/usr/bin/env python3
"""uncompiled.py PROPERTY CRATE: what the macros generate for types or layouts does not compile."""
import json, os, re, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
prop, crate = sys.argv[1], sys.argv[2]
log = os.path.join(root, f"target/build-{crate}.log")
errors = [l.strip() for l in open(log) if re.match(r"(src/types.rs|.*typed/src/lib.rs):[0-9:]+ error", l)]
lines = open(os.path.join(root, crate, "src/types.rs")).read().split("\n")
starts = ("#[derive", "#[treeldr", "pub mod")
cases = []
for e in errors[:10]:
    if not e.startswith("src/types.rs"):
        cases.append({"error": e})
        continue
    i = int(e.split(":")[1]) - 1
    while i > 0 and not lines[i].startswith(starts):
        i -= 1
    j = i + 1
    while j < len(lines) and not lines[j].startswith(starts):
        j += 1
    cases.append({"error": e, "source": lines[i:j]})
what = "the implementations derived for a type do not compile" if prop == "C18" else "the types generated for a layout do not compile"
path = os.path.join(root, "replay", f"{prop}-compile.json")
json.dump({"property": prop, "case": "compile", "what": what, "detail": cases, "replay": f"./check {prop} quick"}, open(path, "w"), indent=1)
print(f"VIOLATION property={prop} replay={path}")
print(f"  {what}: {errors[0]}")
types = sum(l.startswith(starts) for l in lines)
evidence = {"property": prop, "tier": os.environ.get("VERIF_TIER", "quick"), "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
            "coverage": {"states": types, "transitions": len(errors), "traces_validated_against_impl": 0, "exhaustive": False, "samples": cases[:6]},
            "assumptions": [], "wall_s": 0, "violations": len(errors)}
json.dump(evidence, open(os.path.join(root, "evidence", f"{prop}.json"), "w"), indent=1)
