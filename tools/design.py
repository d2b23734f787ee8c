"""Rewrites the generated parts of DESIGN.md (between marker comments): the
table of the properties and the table of the planted bugs.

design.py [LOG]: LOG holds the closing lines of the quick checks."""
import ast
import glob
import json
import os
import re
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def head(pid):
    with open(os.path.join(HERE, "checks", pid.lower() + ".py")) as f:
        doc = ast.get_docstring(ast.parse(f.read()))
    return " ".join(doc.split("\n\n", 1)[-1].split())


def model_names(pid):
    """of the thorough tier"""
    for d in ("mc", "checks"):
        sys.path.insert(0, os.path.join(HERE, d))
    mod = __import__(pid.lower())
    with tempfile.TemporaryDirectory() as d:
        return [m["name"] for m in mod.models("thorough", d)]


def put(text, mark, lines):
    a, b = "<!-- %s -->" % mark, "<!-- end %s -->" % mark
    i, j = text.index(a) + len(a), text.index(b)
    return text[:i] + "\n" + "\n".join(lines) + "\n" + text[j:]


def main():
    cost = {}
    if len(sys.argv) > 1:
        with open(sys.argv[1]) as f:
            for ln in f:
                m = re.match(r"(P\d\d) quick: (\d+) executions, (\d+) cases "
                             r"in process, (\d+) states, .*, ([\d.]+) s", ln)
                if m:
                    cost[m[1]] = m.groups()
    with open(os.path.join(HERE, "properties.jsonl")) as f:
        props = [json.loads(ln) for ln in f]
    with open(os.path.join(HERE, "MANIFEST.json")) as f:
        man = {c["property"]: c for c in json.load(f)["checks"]}
    path = os.path.join(HERE, "DESIGN.md")
    with open(path) as f:
        text = f.read()
    out = []
    for p in props:
        pid = p["id"]
        out += ["", "### %s %s" % (pid, p["title"]), "",
                head(pid), "",
                "* Decided by: %s." % man[pid]["technique"],
                "* Over: %s." % p["quantifier"]["text"],
                "* Models: %s." % ", ".join(model_names(pid))]
        if pid in cost:
            c = cost[pid]
            out += ["* Quick tier: %s executions%s, %s states, %.0f s." % (
                c[1], " and %s cases in process" % c[2] if c[2] != "0"
                else "", c[3], float(c[4]))]
        out += ["* Beyond the tests: %s." % p["why_tests_cant"]]
    text = put(text, "properties", out)
    out = ["", "| bug | property | what it breaks | needs | caught by |",
           "|---|---|---|---|---|"]
    for f in sorted(glob.glob(os.path.join(HERE, "seeded", "*",
                                           "meta.json"))):
        with open(f) as g:
            m = json.load(g)
        out.append("| %s | %s | %s | %s | %s |" % (
            os.path.basename(os.path.dirname(f)), m["property"],
            m["what_it_breaks"], m["needs"], m["property"]))
    text = put(text, "planted", out + [""])
    with open(path, "w") as f:
        f.write(text)


main()
