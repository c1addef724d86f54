"""mutate.py OUT SEED N [FILE...]: development aid.  Plants small syntactic changes in scratch copies of /repo, runs the
checks of the file's properties from a scratch copy of /verif, and lists those no check reports (to be judged by hand)."""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

MAP = {"gsf.py": "C01 C03 C05 C06 C04 C02 C24", "numpy/convert.py": "C15", "numpy/numpy_grains/AudioGrain.py": "C14 C11", "numpy/numpy_grains/VideoGrain.py": "C14 C15 C11 C13",
       "patterngenerators/audio/abc.py": "C18 C20", "patterngenerators/audio/tone.py": "C20 C18", "patterngenerators/abc.py": "C18", "patterngenerators/video/still.py": "C19 C18",
       "patterngenerators/video/lumasteps.py": "C19 C18", "patterngenerators/video/colourbars.py": "C19 C18", "patterngenerators/video/abc.py": "C18 C19",
       "patterngenerators/video/movingbaroverlay.py": "C19 C18", "comparison/_internal.py": "C16 C17", "comparison/options.py": "C16 C17", "comparison/psnr.py": "C16",
       "comparison/__init__.py": "C16 C17", "grains/CodedAudioGrain.py": "C09 C11 C12 C10 C22", "grains/AudioGrain.py": "C09 C12 C13 C11 C20", "grains/EventGrain.py": "C10 C09 C11 C01",
       "grains/Grain.py": "C09 C10 C12 C11 C01 C16", "grains/CodedVideoGrain.py": "C09 C10 C12 C11 C01", "grains/VideoGrain.py": "C13 C10 C09 C11 C01",
       "tools/_file_or_pipe.py": "C24 C21", "tools/extract_from_gsf.py": "C24", "tools/wrap_in_gsf.py": "C24", "cogenums.py": "C13 C14 C15 C09 C20", "hypothesis/strategies.py": "C25",
       "utils/adts_aac_parser.py": "C22", "utils/h264_parser.py": "C23", "utils/grain_wrapper.py": "C21", "utils/adts_aac_grain_wrapper.py": "C22", "utils/asyncbinaryio.py": "C07 C06",
       "utils/h264_grain_wrapper.py": "C23", "utils/iobytes.py": "C08 C06"}
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.FloorDiv, ast.FloorDiv: ast.Mult, ast.Mod: ast.FloorDiv, ast.LShift: ast.RShift, ast.RShift: ast.LShift, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd,
       ast.Div: ast.Mult}
NAMES = [("width", "height"), ("origin_timestamp", "sync_timestamp"), ("source_id", "flow_id"), ("src_id", "flow_id"), ("numerator", "denominator"), ("samples", "channels"), ("rate", "duration"),
         ("offset", "length"), ("origin_width", "coded_width"), ("origin_height", "coded_height"), ("priming", "remainder"), ("start", "end"), ("creation_timestamp", "sync_timestamp"), ("pre", "post"),
         ("min", "max"), ("stride", "width"), ("origin_height", "coded_height"), ("floor", "ceil")]
OTHER = {a: b for p in NAMES for a, b in (p, p[::-1])}


def mutants(src):
    tree = ast.parse(src)
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            if n.name in ("__repr__", "__str__", "msg", "failure"):
                skip |= {id(x) for x in ast.walk(n)}
            for x in n.decorator_list + [n.returns] + [a.annotation for a in n.args.args + n.args.kwonlyargs]:
                if x is not None:
                    skip |= {id(y) for y in ast.walk(x)}
        elif isinstance(n, ast.AnnAssign):
            skip |= {id(y) for y in ast.walk(n.annotation)}
        elif isinstance(n, (ast.Import, ast.ImportFrom, ast.Raise, ast.JoinedStr, ast.Assert)):
            skip |= {id(y) for y in ast.walk(n)}
        elif isinstance(n, ast.If) and "TYPE_CHECKING" in ast.unparse(n.test):
            skip |= {id(y) for y in ast.walk(n)}
    out = []

    def put(n, text):
        out.append((n.lineno, n.col_offset, n.end_lineno, n.end_col_offset, text))

    def swap(n, **kw):
        fields = {f: getattr(n, f) for f in n._fields}
        fields.update(kw)
        put(n, "(" + ast.unparse(type(n)(**fields)) + ")")
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare):
            for i, op in enumerate(n.ops):
                swap(n, ops=n.ops[:i] + [CMP[type(op)]()] + n.ops[i + 1:])
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            swap(n, op=BIN[type(n.op)]())
        elif isinstance(n, ast.BoolOp):
            swap(n, op=ast.Or() if isinstance(n.op, ast.And) else ast.And())
            for i in range(len(n.values)):
                put(n, "(" + ast.unparse(n.values[i]) + ")")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            put(n, "(" + ast.unparse(n.operand) + ")")
        elif isinstance(n, ast.Constant) and not isinstance(n.value, (str, bytes)) and n.value is not Ellipsis:
            if n.value is True or n.value is False:
                put(n, str(not n.value))
            elif isinstance(n.value, int):
                put(n, str(n.value + 1))
                if n.value > 0:
                    put(n, str(n.value - 1))
        elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
            put(n.test, "True" if not isinstance(n, ast.While) else "False")
            if not isinstance(n, ast.While):
                put(n.test, "False")
        elif isinstance(n, (ast.Assign, ast.AugAssign)) or isinstance(n, ast.Expr) and isinstance(n.value, (ast.Call, ast.Await)):
            put(n, "pass")
        elif isinstance(n, ast.Call):
            if len(n.args) == 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                swap(n, args=n.args[::-1])
            for i in range(len(n.keywords)):
                swap(n, keywords=n.keywords[:i] + n.keywords[i + 1:])
            if isinstance(n.func, ast.Name) and n.func.id in ("min", "max", "sorted", "abs", "int", "bytes", "copy", "deepcopy", "list") and len(n.args) == 1:
                put(n, "(" + ast.unparse(n.args[0]) + ")")
            if isinstance(n.func, ast.Name) and n.func.id in OTHER:
                put(n.func, OTHER[n.func.id])
        elif isinstance(n, ast.Attribute) and n.attr in OTHER:
            swap(n, attr=OTHER[n.attr])
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in OTHER:
            put(n, OTHER[n.id])
        elif isinstance(n, ast.Slice):
            for f in ("lower", "upper"):
                if getattr(n, f) is not None:
                    fields = {g: getattr(n, g) for g in n._fields}
                    fields[f] = None
                    put(n, ast.unparse(ast.Slice(**fields)))
        elif isinstance(n, (ast.Break, ast.Continue)):
            put(n, "pass")
    if os.environ.get("ONLY") == "defaults":
        ds = [d for n in ast.walk(tree) if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) for d in n.args.defaults + [x for x in n.args.kw_defaults if x]]
        spans = {(y.lineno, y.col_offset) for d in ds for y in ast.walk(d) if hasattr(y, "lineno")}
        out = [m for m in out if m[:2] in spans and m[4] != str(-1)]
        for d in ds:
            t = ast.unparse(d)
            if isinstance(d, ast.Constant) and isinstance(d.value, float):
                out.append((d.lineno, d.col_offset, d.end_lineno, d.end_col_offset, str(d.value / 2)))
            for a, b in (("S16_INTERLEAVED", "S16_PLANES"), ("U8_444", "U8_422"), ("ALWAYS_DEFER_LOAD_IF_POSSIBLE", "ALWAYS_LOAD_DEFER_IF_POSSIBLE"), ("SEEK_SET", "1"), ("UNKNOWN", "INVALID"), ("INVALID", "UNKNOWN")):
                if t.endswith(a):
                    out.append((d.lineno, d.col_offset, d.end_lineno, d.end_col_offset, t.replace(a, b)))
    return sorted(set(out))


def apply(src, m):
    l0, c0, l1, c1, text = m
    ls = src.encode().split(b"\n")
    return b"\n".join(ls[:l0 - 1] + [ls[l0 - 1][:c0] + text.encode() + ls[l1 - 1][c1:]] + ls[l1:]).decode()


PY = "/opt/venv/bin/python"


def one(job):
    k, f, m, verif, out = job
    d = tempfile.mkdtemp(prefix="mm.", dir="/tmp")
    v = tempfile.mkdtemp(prefix="mv.", dir="/tmp")
    try:
        subprocess.run(["cp", "-a", "/repo/.", d], check=True)
        subprocess.run(["cp", "-a", verif + "/.", v], check=True)
        p = os.path.join(d, "mediagrains", f)
        src = open(p).read()
        new = apply(src, m)
        try:
            compile(new, p, "exec")
        except SyntaxError:
            return
        open(p, "w").write(new)
        diff = subprocess.run(["git", "-C", d, "diff", "-U1"], capture_output=True, text=True).stdout
        mod = "mediagrains." + f[:-3].replace("/", ".").replace(".__init__", "")
        e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", VERIF_REPO=d, VERIF_TIER="quick", VERIF_SEED="1")
        if subprocess.run([PY, "-c", "import mediagrains.gsf, mediagrains.numpy, mediagrains.comparison, " + mod], cwd=d, capture_output=True, env=e, timeout=100).returncode:
            res = "import"
        elif subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "-n", "2", "--timeout=300", "--hypothesis-profile=ci", "--ignore=tests/test_gsf.py", "tests"],
                            cwd=d, env=e, capture_output=True, text=True, timeout=1500).returncode:
            res = "tests"
        else:
            res, seen = "SURVIVED", []
            for c in MAP[f].split():
                try:
                    rc = subprocess.run([PY, "check.py", c], cwd=v, env=e, capture_output=True, text=True, timeout=1500).returncode
                except subprocess.TimeoutExpired:
                    rc = "timeout"
                seen.append("%s=%s" % (c, rc))
                if rc == 1:
                    res = "caught"
                    break
                if rc != 0:
                    res = "BROKEN"
                    break
            res += " " + " ".join(seen)
        with open(out, "a") as o:
            o.write(json.dumps({"k": k, "file": f, "line": m[0], "res": res, "diff": diff if not res.startswith(("caught", "import", "tests")) else m[4]}) + "\n")
    except Exception as x:
        with open(out, "a") as o:
            o.write(json.dumps({"k": k, "file": f, "line": m[0], "res": "ERROR %r" % x}) + "\n")
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(v, ignore_errors=True)


def main():
    out, seed, n = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    files = sys.argv[4:] or list(MAP)
    r = random.Random(seed)
    verif = tempfile.mkdtemp(prefix="mvsrc.", dir="/tmp")
    for x in ("check.py", "harness", "spec", "known_findings.jsonl", "properties.jsonl", "MANIFEST.json"):
        subprocess.run(["cp", "-a", "/verif/" + x, verif + "/"], check=True)
    os.makedirs(verif + "/evidence"), os.makedirs(verif + "/replays")
    ms = {f: mutants(open("/repo/mediagrains/" + f).read()) for f in files}
    for f in files:
        r.shuffle(ms[f])
    total = sum(map(len, ms.values()))
    jobs = []
    for f in files:
        q = max(4 if len(sys.argv) < 5 else 1, round(n * len(ms[f]) / total))
        jobs += [((i + r.random()) / q, f, m) for i, m in enumerate(ms[f][:q])]
    jobs.sort()
    print(len(jobs), "of", total, flush=True)
    with ThreadPoolExecutor(int(os.environ.get("JOBS", "2"))) as ex:
        list(ex.map(one, [(i, f, m, verif, out) for i, (_, f, m) in enumerate(jobs)]))
    shutil.rmtree(verif)


main()
