"""Single source of properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
NA = []


def P(id, title, statement, over, text, why, files, mech, claimed=True, level="proof", note="", technique=None, reason=None):
    PROPS.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
                  "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}, "_c": claimed, "_l": level, "_n": note, "_t": technique, "_r": reason})


P("P01", "Sets of degrees of freedom behave as sets and match Nastran component codes",
  "Union, difference, intersection, membership, size, emptiness, equality and iteration of sets of degrees of freedom agree with the mathematical set of the six components DX,DY,DZ,RX,RY,RZ, and iteration visits exactly the members in that order. Reading a Nastran component code gives the set of its digits (digit n is the n-th component, 0 alone stands for the first), any other digit is rejected with an invalid-argument error, and writing a non-empty set gives the code of its members in increasing order.",
  ["inputs"], "every pair of the 64 sets, every single degree of freedom, every int used as a component code",
  "Unit tests check a handful of sets and codes; the statement is for all sets, all 2^31 codes and all combinations of operations.",
  ["Abstract/Dof.cpp", "Abstract/Dof.h"],
  [("DOFS operators, iterator, size, contains*", "Abstract/Dof.cpp"), ("DOFS::nastranCode / nastranCodeToDOFS and the digit table", "Abstract/Dof.cpp")],
  note="All obligations over all 64x64 sets and every non-negative int code are discharged by z3 from the extracted AST; boost::bimap and std::string are under assumed library contracts; negative codes are outside the domain.")

exec(open(os.path.join(V, "tools", "props_more.py")).read())

TECH = "contract-based deductive verification: weakest-precondition style VCs generated from the clang AST of /repo and discharged by z3; refuted obligations replayed on the real code; bounded stand-in runs where stated"


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    checks = [{"property": p["id"], "quick_cmd": "./check %s quick" % p["id"], "thorough_cmd": "./check %s thorough" % p["id"], "evidence_file": "evidence/%s.json" % p["id"],
               "technique": p["_t"] or TECH, "level": p["_l"], "level_note": p["_n"]} for p in PROPS if p["_c"]]
    na = [{"property": p["id"], "reason": p["_r"]} for p in PROPS if not p["_c"]]
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "./check --setup", "checks": checks, "not_applicable": na}, f, indent=1)
        f.write("\n")


main()
