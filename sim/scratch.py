"""A private directory per run, inside the check's own scratch folder."""
import os
import shutil
import tempfile

_dir = None


def fresh():
    global _dir
    drop()
    _dir = tempfile.mkdtemp(prefix="run-", dir=os.environ.get("VERIF_SCRATCH") or None)
    return _dir


def drop():
    global _dir
    if _dir is not None:
        shutil.rmtree(_dir, ignore_errors=True)
        _dir = None
