#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from design_head.md and what the machinery itself is made from."""
import glob, json, os, sys
sys.dont_write_bytecode = True
H = os.path.dirname(os.path.abspath(__file__)); R = os.path.dirname(H); sys.path.insert(0, H)
import props_cfg
out = [open(os.path.join(H, "design_head.md")).read().rstrip(), "\n\n## Properties\n"]
seeded = {}
for f in sorted(glob.glob(os.path.join(R, "seeded/*/meta.json"))): seeded[f.split("/")[-2]] = json.load(open(f))
known = [l.strip() for l in open(os.path.join(R, "known_findings.txt")) if l[0] != "#"]
FLAV = {"asan": "g++ ASan+UBSan", "tsan": "g++ TSan", "clang-asan": "clang ASan+UBSan", "opt": "g++ -O3", "valgrind": "valgrind memcheck", "work": "g++ with counted basic blocks", "mixed": "g++ and clang, -O1 and -O3 -DNDEBUG, units mixed"}
for l in open(os.path.join(R, "properties.jsonl")):
    p = json.loads(l); i = p["id"]; out.append("\n### %s. %s\n" % (i, p["title"])); out.append(p["statement"] + "\n")
    c = props_cfg.CFG.get(i)
    if not c: out.append("\nNot claimed: " + props_cfg.NOT_APPLICABLE.get(i, "no check yet") + "\n"); continue
    h = sorted({s.split(" ")[0].replace("$REPO/", "") for s in c["src"] if "$REPO" not in s})
    out.append("\n* Method: %s.\n* Bounds: %s\n* A case: %s.\n" % (c["technique"], c["level_note"], c["rule"]))
    out.append("* Builds: %s; thorough: %s. Harness: %s.\n" % (", ".join(FLAV[f] for f in c["flavours"]), ", ".join(FLAV[f] for f in c["flavours_thorough"]), ", ".join("`harness/%s`" % s for s in h)))
    out.append("* Has to be observed in each run: %s.\n" % ", ".join("%s ≥ %d" % (n.replace("_", " "), v) for n, v in c.get("require", {}).items()))
    out.append("* Beyond the tests: %s\n" % p["why_tests_cant"])
    fx = [k.split(" ", 3)[2] for k in known if k.startswith("fixed: property=%s " % i)]
    s = [n for n, m in seeded.items() if m["property"] == i]
    if fx: out.append("* Defects found and repaired: %s.\n" % ", ".join(fx))
    if s: out.append("* Planted bugs it catches: %s.\n" % ", ".join(s))
out.append("\n## Defects of bcl\n\nAll of them were shown by the checks on the real code and repaired by \"fix:\" commits in `/repo`\n(`known_findings.txt`); nothing is recorded as a known finding. Repairs were reverted one by one to see that\nthe check reports them again (not 79024b9, missing includes, which a compiler sees or not depending on its\nown headers, nor those whose lines later repairs changed again).\n\n| property | commit | what failed |\n|---|---|---|\n")
for k in known:
    if not k.startswith("fixed: "): continue
    a, b, rest = k[len("fixed: property="):].split(" ", 2); out.append("| %s | %s | %s |\n" % (a, b, rest.replace("|", "\\|")))
out.append("\n## Planted bugs\n\nEach was written from the text of the property and the code. All of them build and pass the five tests. \"Caught by\" is the\ncheck of the property itself (exit 1 and its VIOLATION line, quick tier).\n\n| bug | caught by | what it breaks | needs |\n|---|---|---|---|\n")
for n, m in seeded.items(): out.append("| %s | %s | %s | %s |\n" % (n, m.get("caught_by", m["property"]), m["what_it_breaks"].replace("|", "\\|"), m["needs"].replace("|", "\\|")))
open(os.path.join(R, "DESIGN.md"), "w").write("".join(out)); print(len(out))
