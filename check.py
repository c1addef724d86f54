#!/opt/venv/bin/python
"""check.py Cxx: run the check of one property (tier from VERIF_TIER, seed from VERIF_SEED).

The check runs in a child process: code under test that brings the interpreter itself down (a numpy view beyond its
buffer, say) has not done what the property asks, and the parent reports that as the violation it is."""
import faulthandler
import importlib
import os
import signal
import sys
import tempfile

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(HERE, "harness"))
sys.path.insert(0, REPO)
os.environ["PYTHONNOUSERSITE"] = "1"
CRASHES = (signal.SIGSEGV, signal.SIGBUS, signal.SIGFPE, signal.SIGILL, signal.SIGABRT)


def child(prop, trace):
    import warnings
    faulthandler.enable(trace)
    warnings.simplefilter("ignore")
    from common import main
    mod = importlib.import_module(prop.lower())
    main(prop, mod.run)


def parent(prop, pid, trace):
    for s in (signal.SIGTERM, signal.SIGINT):
        signal.signal(s, lambda n, _: os.kill(pid, n))
    _, status = os.waitpid(pid, 0)
    if not os.WIFSIGNALED(status):
        return os.WEXITSTATUS(status)
    sig = os.WTERMSIG(status)
    trace.seek(0)
    text = trace.read()
    print(f"the check was ended by signal {sig}\n{text}")
    if sig not in CRASHES or os.path.join(REPO, "mediagrains") not in text:
        return 3
    from common import crashed
    return crashed(prop, sig, text)


if __name__ == "__main__":
    prop = sys.argv[1].upper()
    with tempfile.TemporaryFile("w+") as trace:
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            child(prop, trace)
        rc = parent(prop, pid, trace)
    sys.stdout.flush()
    sys.exit(rc)
