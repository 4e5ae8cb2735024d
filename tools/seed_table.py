"""Writes SEEDS.md: for each planted bug, what the check of its property says about it (run on scratch copies)."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(name):
    m = json.load(open("%s/seeded/%s/meta.json" % (ROOT, name)))
    d = tempfile.mkdtemp(prefix="seedtab_", dir="/tmp")
    try:
        subprocess.run("git -C /repo archive HEAD | tar x -C " + d, shell=True, check=True)
        subprocess.run(["git", "apply", "%s/seeded/%s/patch.diff" % (ROOT, name)], cwd=d, check=True)
        p = subprocess.run([sys.executable, ROOT + "/vf/check.py", m["property"]], capture_output=True, text=True, env=dict(os.environ, VF_REPO=d, VF_EVIDENCE=d + "/.ev"))
        k = "reported" if p.returncode == 1 and "VIOLATION property=" in p.stdout else "undecided" if "UNDECIDED" in p.stdout else "quiet"
    finally: shutil.rmtree(d)
    return "| %s | %s | %s | %s | %s |" % (name, m["property"], k, m["what_it_breaks"], m["needs"])


with ThreadPoolExecutor(6) as ex: rows = list(ex.map(one, sorted(os.listdir(ROOT + "/seeded"))))
open(ROOT + "/SEEDS.md", "w").write("# Planted bugs and what the check of their property says\n\nWritten by `tools/seed_table.py`.\n\n| id | property | check | what it breaks | needs |\n|---|---|---|---|---|\n" + "\n".join(rows) + "\n")
