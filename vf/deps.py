"""Make `hypothesis` importable: unpack the offline wheels into /verif/.deps (or a temp dir)."""
import glob
import os
import sys
import tempfile
import zipfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WHEELS = "/opt/veriftools/wheels"
TAG = "cp%d%d" % sys.version_info[:2]


def _unpack(target):
    os.makedirs(target, exist_ok=True)
    for pattern in (f"hypothesis-*-{TAG}-*.whl", "sortedcontainers-*.whl"):
        found = sorted(glob.glob(os.path.join(WHEELS, pattern)))
        if not found:
            raise RuntimeError(f"no wheel {pattern} in {WHEELS}")
        with zipfile.ZipFile(found[-1]) as z:
            z.extractall(target)


def ensure():
    try:
        import hypothesis  # noqa: F401

        return
    except ImportError:
        pass
    target = os.path.join(ROOT, ".deps")
    marker = os.path.join(target, ".complete")
    if not os.path.exists(marker):
        try:
            tmp = tempfile.mkdtemp(prefix=".deps_", dir=ROOT)
            _unpack(tmp)
            open(os.path.join(tmp, ".complete"), "w").close()
            try:
                os.rename(tmp, target)
            except OSError:
                target = tmp
        except OSError:
            target = tempfile.mkdtemp(prefix="vf_deps_")
            _unpack(target)
    sys.path.insert(0, target)
    import hypothesis  # noqa: F401


if __name__ == "__main__":
    ensure()
    import hypothesis

    print("hypothesis", hypothesis.__version__)
