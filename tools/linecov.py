"""linecov.py C01 C02 ...: runs the quick tier of the checks and lists the lines of ghedt that none of them executes (development aid)."""
import contextlib
import io
import json
import os
import sys
import tempfile
import glob

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from vf import core, main as vm  # noqa: E402

REPO = os.path.realpath(core.REPO) + "/ghedt/"
OUT = tempfile.mkdtemp(prefix="linecov_")
real = vm._task


def task(args):
    seen = set()
    mon = sys.monitoring
    mon.use_tool_id(3, "linecov")

    def line(code, n):
        f = code.co_filename
        if f.startswith(REPO):
            seen.add((f[len(REPO):], n))
        return mon.DISABLE
    mon.register_callback(3, mon.events.LINE, line)
    mon.set_events(3, mon.events.LINE)
    try:
        real(args)
    finally:
        json.dump(sorted(seen), open(os.path.join(OUT, "%d.json" % os.getpid()), "w"))


vm._task = task
for pid in sys.argv[1:]:
    sys.argv = ["main", pid]
    b = io.StringIO()
    with contextlib.redirect_stdout(b):
        rc = vm.main()
    print(pid, rc, file=sys.stderr)
seen = {}
for p in glob.glob(OUT + "/*.json"):
    for f, n in json.load(open(p)):
        seen.setdefault(f, set()).add(n)


def lines(code):
    r = {x for _, _, x in code.co_lines() if x} if code.co_name != "<module>" else set()
    if r:
        r.discard(code.co_firstlineno)
    for c in code.co_consts:
        if hasattr(c, "co_code"):
            r |= lines(c)
    return r


tot = hit = 0
for p in sorted(glob.glob(REPO + "**/*.py", recursive=True)):
    f = p[len(REPO):]
    src = open(p).read()
    import ast
    doc = set()
    for nd in ast.walk(ast.parse(src)):
        if isinstance(nd, ast.Expr) and isinstance(nd.value, ast.Constant) and isinstance(nd.value.value, str):
            doc |= set(range(nd.lineno, nd.end_lineno + 1))
    want = {n for n in lines(compile(src, p, "exec")) if n} - doc
    # class bodies run at import
    miss = sorted(want - seen.get(f, set()))
    tot += len(want)
    hit += len(want) - len(miss)
    if miss:
        print(f, "%d of %d lines not executed:" % (len(miss), len(want)), miss)
print("executed %d of %d lines" % (hit, tot))
