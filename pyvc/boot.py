"""Imports the code under verification from the repository."""
import importlib.metadata
import os
import sys

REPO = os.environ.get('FAUXDOC_REPO', '/repo')
SRC = os.path.join(REPO, 'src')


def boot():
    sys.dont_write_bytecode = True
    if SRC not in sys.path:
        sys.path.insert(0, SRC)
    old = importlib.metadata.version

    def version(name):
        try:
            return old(name)
        except importlib.metadata.PackageNotFoundError:
            if name == 'fauxdoc':
                return '0'
            raise
    importlib.metadata.version = version
    try:
        import fauxdoc
    finally:
        importlib.metadata.version = old
    f = os.path.realpath(fauxdoc.__file__)
    if not f.startswith(os.path.realpath(SRC) + os.sep):
        raise RuntimeError(f'fauxdoc was imported from {f}')
    return fauxdoc
