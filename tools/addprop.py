"""Helper: p(id, title, statement, over, qtext, why, files, mech, state, observe, technique, note)"""
import json, os
D = os.path.join(os.path.dirname(os.path.abspath(__file__)), "props")
os.makedirs(D, exist_ok=True)
def p(id, title, statement, over, qtext, why, files, mech, state, observe, technique, note, na=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
         "anchors": {"files": files,
                     "mechanism": [{"name": a, "where": b} for a, b in mech],
                     "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                     "observe_at": observe, "hook_needed": False},
         "technique": technique, "level_note": note}
    if na: d["not_applicable"] = na
    json.dump(d, open(f"{D}/{id}.json", "w"), indent=1, ensure_ascii=False)
