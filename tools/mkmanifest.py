#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl")) as f:
    PROPS = [json.loads(l) for l in f]

NOTES = {
    "default": "TLC explores bounded models of the specification exhaustively and checks the property on them; the behaviours it finds, and larger "
               "random histories, are executed by the real code and every recorded step is checked by TLC against the specification. "
               "Holds for what was explored, within the bounds in DESIGN.md; trusts TLC, the Python HTML tokenizer and the harness that records the steps.",
    "C05": "Python's tokenizer and the third-party selector parser are trusted; selectors and trees are bounded.",
    "C24": "The Markdown converter and the syntax highlighter are trusted: the specification takes their HTML as given.",
}
checks = []
for p in PROPS:
    i = p["id"]
    note = NOTES["default"] + (" " + NOTES[i] if i in NOTES else "")
    checks.append({
        "property": i,
        "quick_cmd": "/opt/venv/bin/python check.py %s --tier quick" % i,
        "thorough_cmd": "/opt/venv/bin/python check.py %s --tier thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": "explicit TLA+ specification, model checked with TLC, and trace validation of the implementation against it",
        "level": "model_checking",
        "level_note": note,
    })
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python tools/setup.py", "checks": checks, "not_applicable": [],
               "notes": "No hooks: everything is observed at the public interface. /opt/venv is the environment in which the repository runs."}, f, indent=1)
    f.write("\n")
