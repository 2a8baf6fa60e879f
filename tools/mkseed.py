#!/usr/bin/env python3
"""mkseed.py SPEC.py [ID...]: build and confirm planted bugs.

SPEC.py defines S = {id: dict(prop, file, edits=[(old, new)...], needs, breaks, demo)}.  Each is confirmed in a
scratch copy of /repo: the patch applies, the repository's stable tests pass, the demonstration exits 0 on the
unchanged tree and nonzero on the changed one.  Confirmed ones are written to /verif/seeded/<id>/, and the quick
check of their property is run against the scratch copy (SA_REPO).
"""
import concurrent.futures as cf
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile

PY = "/opt/venv/bin/python"
DEMO = '#!/bin/sh\nPYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 exec timeout 200 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'
HEAD = '''import asyncio
import gc
import logging
import pathlib
import sys
from datetime import timedelta

import frequenz.channels as ch
from frequenz.channels import *
from frequenz.channels.event import Event
from frequenz.channels.file_watcher import FileWatcher, EventType
from frequenz.channels import file_watcher, timer
from frequenz.channels.timer import *

logging.disable(logging.NOTSET)


async def settle(n=20):
    for _ in range(n):
        await asyncio.sleep(0)


'''
TAIL = '''

asyncio.run(asyncio.wait_for(main(), 60))
'''


def run(cmd, cwd, env=None, t=400):
    try:
        return subprocess.run(cmd, cwd=cwd, env={**os.environ, **(env or {})}, capture_output=True, text=True, timeout=t)
    except subprocess.TimeoutExpired as e:
        return subprocess.CompletedProcess(cmd, 124, str(e.stdout or ""), "TIMEOUT")


def build(sid, s):
    d = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    try:
        repo = f"{d}/repo"
        shutil.copytree("/repo", repo, symlinks=True)
        files = s["file"] if isinstance(s["file"], list) else [s["file"]] * len(s["edits"])
        for f, (old, new) in zip(files, s["edits"]):
            p = f"{repo}/src/frequenz/channels/{f}"
            t = open(p).read()
            if t.count(old) != 1:
                return sid, f"BAD: {t.count(old)} matches of {old!r}", None
            t = t.replace(old, new)
            compile(t, p, "exec")
            open(p, "w").write(t)
        diff = run(["git", "diff"], repo).stdout
        out = f"{d}/out"
        os.mkdir(out)
        open(f"{out}/patch.diff", "w").write(diff)
        open(f"{out}/demo.sh", "w").write(DEMO)
        open(f"{out}/demo.py", "w").write(HEAD + s["demo"].strip() + TAIL)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                  open(f"{out}/meta.json", "w"), indent=1)
        os.chmod(f"{out}/demo.sh", 0o755)
        good = run(["sh", f"{out}/demo.sh"], "/repo")
        if good.returncode:
            return sid, f"BAD: demo fails unpatched: {good.stdout[-300:]} {good.stderr[-900:]}", None
        bad = run(["sh", f"{out}/demo.sh"], repo)
        if bad.returncode == 0:
            return sid, "BAD: demo passes patched", None
        t = run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=60", "--hypothesis-seed=0", "-x"], repo,
                {"PYTHONPATH": f"{repo}/src", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0",
                 "PYLINTHOME": f"{d}/pl", "PATH": "/opt/venv/bin:" + os.environ["PATH"]})
        if t.returncode:
            return sid, "BAD: tests fail: " + " ".join(x for x in t.stdout.splitlines() if x.startswith("FAILED"))[:300], None
        dst = f"/verif/seeded/{sid}"
        if os.path.isdir(dst):
            shutil.rmtree(dst)
        shutil.copytree(out, dst)
        c = run([sys.executable, "/verif/check.py", s["prop"]], "/tmp", {"SA_REPO": repo, "SA_EVIDENCE": d}, 900)
        lines = [x for x in c.stdout.splitlines() if not x.startswith("KNOWN")]
        verdict = {0: "MISSED", 1: "caught", 2: "nothing decided"}.get(c.returncode, f"exit {c.returncode}")
        return sid, f"ok demo-exit={bad.returncode} {s['prop']}: {verdict}", "\n".join(lines[:6] + [c.stderr[-300:]])
    finally:
        shutil.rmtree(d)


def main():
    spec = importlib.util.spec_from_file_location("spec", sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    ids = sys.argv[2:] or list(m.S)
    with cf.ThreadPoolExecutor(4) as ex:
        for f in cf.as_completed([ex.submit(build, i, m.S[i]) for i in ids]):
            sid, v, more = f.result()
            print(sid, "|", v, flush=True)
            if more and "caught" not in v:
                print("    " + more.replace("\n", "\n    "), flush=True)


if __name__ == "__main__":
    main()
