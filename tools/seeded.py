#!/usr/bin/env python3
"""Runs the checks against the planted bugs and writes the table in DESIGN.md.

  seeded.py run [NAME ...]   apply each patch to /repo, run the check of its
                             property, undo, record what it said
  seeded.py table            rewrite the table in DESIGN.md

Not part of any check."""
import json, os, re, subprocess, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, "seeded")
LOG = os.path.join(ROOT, "tools", "seeded.json")
ALSO = {"c01-leak": ["C22"]}


def log():
    return json.load(open(LOG)) if os.path.exists(LOG) else {}


def meta(name):
    return json.load(open(os.path.join(SEEDED, name, "meta.json")))


def run(names):
    for name in names or sorted(os.listdir(SEEDED)):
        patch = os.path.join(SEEDED, name, "patch.diff")
        subprocess.check_call(["git", "-C", "/repo", "apply", patch])
        caught = []
        try:
            for pid in [meta(name)["property"]] + ALSO.get(name, []):
                r = subprocess.run([sys.executable, "run.py", "check", pid], cwd=ROOT, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                   env={**os.environ, "VERIF_SEED": "1", "VERIF_TIER": "quick"})
                hit = r.returncode == 1 and "VIOLATION property=" + pid in r.stdout
                print(name, pid, "caught" if hit else "MISSED %d" % r.returncode, flush=True)
                if hit:
                    caught.append(pid)
        finally:
            subprocess.check_call(["git", "-C", "/repo", "checkout", "--", "."])
        d = log()
        d[name] = caught
        json.dump(d, open(LOG, "w"), indent=1, sort_keys=True)


def table():
    d = log()
    rows = ["| change | needs | caught by |", "|---|---|---|"]
    for name in sorted(os.listdir(SEEDED)):
        rows.append("| %s | %s | %s |" % (name, meta(name)["needs"].replace("|", "/"), ", ".join(d.get(name, ["not run"])) or "missed"))
    p = os.path.join(ROOT, "DESIGN.md")
    s = open(p).read()
    s = re.sub(r"(<!-- seeded -->).*", lambda m: m.group(1) + "\n" + "\n".join(rows) + "\n", s, flags=re.S)
    open(p, "w").write(s)


if __name__ == "__main__":
    if sys.argv[1:2] == ["run"]:
        run(sys.argv[2:])
    table()
