"""Type witnesses (C33): client programs that mypy must accept or reject against the current source."""
from __future__ import annotations

import os
import re
import shutil
import subprocess
import sys
import tempfile

from .interp import Gap
from .scn import Viol

HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "witness")
LINE = re.compile(r"#\s*W:\s*([\w-]+)\s*\|\s*(\S+)\s*$")


def mypy_cmd():
    m = shutil.which("mypy")
    if m is None:
        raise Gap("mypy not found")
    return [m, "--strict", "--namespace-packages", "--explicit-package-bases", "--follow-imports=silent",
            "--config-file=", "--no-error-summary", "--hide-error-context", "--no-color-output", "--no-site-packages"]


def deps(tmp):
    """The package's dependencies alone, so that mypy resolves the package itself to the analysed tree."""
    site = os.path.join(tmp, "site")
    os.mkdir(site)
    src = "/opt/venv/lib/python3.12/site-packages"
    for name in ("watchfiles", "anyio", "idna", "sniffio"):
        if os.path.isdir(os.path.join(src, name)):
            os.symlink(os.path.join(src, name), os.path.join(site, name))
    return site


def check(prog, rep, name, cache, site):
    """Errors per line of a witness file."""
    path = os.path.join(HERE, name)
    env = {**os.environ, "MYPYPATH": os.path.join(prog.repo, "src") + ":" + site}
    r = subprocess.run([*mypy_cmd(), f"--cache-dir={cache}/c", path], capture_output=True, text=True, env=env, cwd=HERE,
                       timeout=600)
    if r.returncode not in (0, 1) or "Traceback" in r.stderr:
        raise Gap(f"mypy failed: {(r.stdout + r.stderr)[-300:]}")
    errs = {}
    for ln in r.stdout.splitlines():
        m = re.match(r"(.+?):(\d+): error: (.*)$", ln)
        if m and os.path.basename(m.group(1)) == name:
            errs.setdefault(int(m.group(2)), m.group(3))
        elif m and "frequenz" not in m.group(1):
            raise Gap(f"mypy: {ln}")
    return errs


def run_types(prog, rep, tier):
    cache = tempfile.mkdtemp(prefix="sa-mypy-")
    try:
        n = 0
        site = deps(cache)
        for name, accept in (("accept.py", True), ("reject.py", False)):
            errs = check(prog, rep, name, cache, site)
            with open(os.path.join(HERE, name), encoding="utf-8") as f:
                lines = f.read().splitlines()
            marked = set()
            for i, ln in enumerate(lines, 1):
                m = LINE.search(ln)
                if not m or ln.lstrip().startswith("Every line"):
                    continue
                n += 1
                marked.add(i)
                rule, con = m.groups()
                mod = con.split(":")[0]
                anchor = f"src/frequenz/channels/{con}"
                rep.fns.add(anchor)
                rep.ok("C33", ("accepts-" if accept else "rejects-") + rule)
                code = LINE.sub("", ln).strip()
                if accept and i in errs:
                    rep.add(Viol("C33", "accepts-" + rule, anchor, f"a correct program is rejected: `{code}`: {errs[i]}",
                                 f"witness/{name}:{i}"))
                if not accept and i not in errs:
                    rep.add(Viol("C33", "rejects-" + rule, anchor, f"a wrong program is accepted: `{code}`",
                                 f"witness/{name}:{i}"))
            for i, e in errs.items():
                if i not in marked:
                    rep.add(Viol("C33", "accepts-program", "src/frequenz/channels/__init__.py:__all__",
                                 f"witness line `{lines[i - 1].strip()}` does not type check: {e}",
                                 f"witness/{name}:{i}"))
        rep.states["type witnesses"] = n
        if not n:
            rep.vacuous.append("type witnesses")
    except (Gap, subprocess.TimeoutExpired) as g:
        rep.gaps.append(("mypy", str(g)))
        rep.vacuous.append("type witnesses")
    finally:
        shutil.rmtree(cache)
