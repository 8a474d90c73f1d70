"""Scratch directories for checks that need files; always removed, never outside the temp dir."""
from __future__ import annotations

import contextlib
import os
import secrets
import shutil
import tempfile
from pathlib import Path


@contextlib.contextmanager
def directory():
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()
    # (mkdtemp's names may contain "__")
    d = os.path.join(base, f"verif-{os.getpid()}-{secrets.token_hex(8)}")
    os.mkdir(d, 0o700)
    try:
        yield Path(d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def put(root: Path, rel: str, content: str | bytes) -> Path:
    p = root / rel
    assert root in p.parents or p.parent == root
    p.parent.mkdir(parents=True, exist_ok=True)
    if isinstance(content, bytes):
        p.write_bytes(content)
    else:
        p.write_bytes(content.encode("utf-8"))
    return p
