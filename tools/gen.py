#!/usr/bin/env python3
"""Single source of the property list: writes properties.jsonl, checks.json and MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS, CHECKS, NA = [], {}, []
BASE_ASSUME = [
    "the go/ssa form of the code is the code (compiler and SSA builder trusted)",
    "standard-library leaves are modelled in the engine (math/big as exact integers, fmt/strconv/strings/bytes on symbolic text, sync/channels/timers as a scheduler); modelled behaviour is re-checked by replaying one witness per path family natively",
]

def H(pkg, fn, bound, budget=60, conc=False, nowit=False, shards=0, **params):
    h = {"pkg": "flychain" + pkg if pkg[0] == "/" else "flychain/zzverif/" + pkg, "fn": fn, "bound": bound, "budget": budget}
    if params: h["params"] = params
    if conc: h["conc"] = True
    if shards: h["shards"] = shards
    if nowit: h["nowit"] = True
    return h

def P(id, title, statement, over, over_text, why, files, mech, quick=None, thorough=None, outside="", assume=(), na=None, observe=(), state=()):
    PROPS.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": over_text},
        "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "observe_at": list(observe) or [n for n, _ in mech],
                    "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                    "hook_needed": None},
    })
    if na:
        NA.append({"property": id, "reason": na}); return
    CHECKS[id] = {"title": title, "quick": quick, "thorough": thorough or quick,
                  "assumptions": BASE_ASSUME + list(assume), "outside": outside}

exec(open(os.path.join(ROOT, "tools", "props.py"), encoding="utf8").read())

def design():
    D = os.path.join(ROOT, "tools")
    exec(open(os.path.join(D, "oracles.py"), encoding="utf8").read(), globals())
    out = [open(os.path.join(D, "design_head.md"), encoding="utf8").read()]
    out.append("\n## 2. Properties\n\nPer property: what is quantified over, the code executed, the oracle, and the harnesses with their bounds (quick tier; thorough where it differs). `harness budget` is the time limit of one harness; typical quick run times are in section 3.\n")
    for p in PROPS:
        i = p["id"]
        out.append("\n### %s — %s\n\n%s\n" % (i, p["title"], p["statement"]))
        if i not in CHECKS:
            r = [x["reason"] for x in NA if x["property"] == i][0]
            out.append("\n*Not applicable:* %s\n" % r); continue
        c = CHECKS[i]
        out.append("\n* Quantified over: %s (%s). %s" % (p["quantifier"]["text"], ", ".join(p["quantifier"]["over"]), p["why_tests_cant"]))
        out.append("\n* Code: %s" % "; ".join("%s (`%s`)" % (m["name"], m["where"]) for m in p["anchors"]["mechanism"]))
        out.append("\n* Oracle: %s." % ORACLES[i])
        def hs(l): return "; ".join("`%s.%s` %s" % (h["pkg"].split("/")[-1], h["fn"], h["bound"]) for h in l)
        out.append("\n* Quick: %s." % hs(c["quick"]))
        if c["thorough"] != c["quick"]: out.append("\n* Thorough: %s." % hs(c["thorough"]))
        if c["outside"]: out.append("\n* Outside: %s." % c["outside"])
        ex = [a for a in c["assumptions"] if a not in BASE_ASSUME]
        if ex: out.append("\n* Assumptions: %s." % "; ".join(ex))
        out.append("\n")
    kf = json.load(open(os.path.join(ROOT, "known_findings.json"), encoding="utf8"))
    out.append("\n## 3. Results on this tree\n\n### Repaired defects\n\nEach was first reported by the check named, reproduced against the real code, repaired in one `fix:` commit; `tools/regress.sh` re-introduces each in a scratch copy and confirms that the check reports it again.\n\n")
    for f in kf["fixed"]: out.append("* %s\n" % f[len("fixed: "):].replace("property=", ""))
    out.append("\n### Known findings (not repaired)\n\n")
    for f in kf["findings"]: out.append("* %s `%s`: %s\n" % (f["property"], f["harness"], f["what"]))
    p = os.path.join(D, "results.md")
    if os.path.exists(p): out.append("\n" + open(p, encoding="utf8").read())
    out.append(open(os.path.join(D, "design_tail.md"), encoding="utf8").read())
    open(os.path.join(ROOT, "DESIGN.md"), "w", encoding="utf8").write("".join(out))

def main():
    ids = [p["id"] for p in PROPS]
    assert len(set(ids)) == len(ids)
    design()
    for p in PROPS: assert len(p["title"]) <= 80, p["title"]
    with open(os.path.join(ROOT, "properties.jsonl"), "w", encoding="utf8") as f:
        for p in PROPS: f.write(json.dumps(p, ensure_ascii=False) + "\n")
    with open(os.path.join(ROOT, "checks.json"), "w", encoding="utf8") as f:
        json.dump(CHECKS, f, indent=1, ensure_ascii=False); f.write("\n")
    m = {"version": 1, "setup_cmd": "bash setup.sh",
         "checks": [], "not_applicable": NA,
         "notes": "Solver-based checking: /verif/engine is a symbolic executor for Go SSA (golang.org/x/tools, vendored) that discharges its queries with z3; harnesses in /verif/harness drive the repository's exported API. No hooks in /repo."}
    for i in ids:
        if i not in CHECKS: continue
        c = CHECKS[i]
        conc = any(h.get("conc") for h in c["quick"])
        m["checks"].append({
            "property": i,
            "quick_cmd": "bin/gosym check -prop %s -tier quick" % i,
            "thorough_cmd": "bin/gosym check -prop %s -tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "symbolic execution of the Go SSA of /repo" + (" over all interleavings within a bound" if conc else "") + ", decided by SMT (z3), counterexamples replayed natively",
            "level": "model_checking",
            "level_note": "Exhaustive within the stated bounds (%s). Trusted: SSA builder, engine models of standard-library leaves (cross-checked by native witness replay), z3. Outside: %s" % (
                "; ".join(h["bound"] for h in c["quick"]), c["outside"] or "anything beyond the bounds"),
        })
    with open(os.path.join(ROOT, "MANIFEST.json"), "w", encoding="utf8") as f:
        json.dump(m, f, indent=1, ensure_ascii=False); f.write("\n")
    print(len(PROPS), "properties,", len(CHECKS), "checks,", len(NA), "not applicable")
main()
