"""Make Hypothesis importable from the offline wheelhouse (unpacked once under /verif/.deps)."""
import glob, os, shutil, sys, tempfile, zipfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEPS = os.path.join(ROOT, ".deps")
WHEELS = "/opt/veriftools/wheels"
NEEDED = ("hypothesis-", "sortedcontainers-")


def ensure():
    if not os.path.isdir(os.path.join(DEPS, "hypothesis")):
        tmp = tempfile.mkdtemp(prefix=".deps.", dir=ROOT)
        for n in NEEDED:
            wl = [w for w in sorted(glob.glob(os.path.join(WHEELS, n + "*.whl")))
                  if "py2.py3-none-any" in w or "py3-none-any" in w
                  or f"cp{sys.version_info[0]}{sys.version_info[1]}" in w or "abi3" in w]
            if not wl:
                raise RuntimeError(f"no wheel for {n} in {WHEELS}")
            with zipfile.ZipFile(wl[-1]) as z:
                z.extractall(tmp)
        try:
            os.rename(tmp, DEPS)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)      # another process was faster
    if DEPS not in sys.path:
        sys.path.append(DEPS)
