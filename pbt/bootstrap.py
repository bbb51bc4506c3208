"""Makes hypothesis (from the pre-installed tool environment) and /repo/src importable.

The interpreter is the one /repo is built for; only the hypothesis and sortedcontainers packages are
taken from /opt/veriftools, nothing else of that environment becomes visible.
"""
import importlib.machinery
import os
import sys

SITE = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class _Finder:
    names = ('hypothesis', 'sortedcontainers')

    @classmethod
    def find_spec(cls, name, path=None, target=None):
        if path is None and (name in cls.names or name.startswith('_hypothesis')):
            return importlib.machinery.PathFinder.find_spec(name, [SITE])
        return None


def setup():
    if not any(f is _Finder for f in sys.meta_path):
        sys.meta_path.insert(0, _Finder)
    src = os.path.join(REPO, 'src')
    if sys.path[0] != src:
        sys.path.insert(0, src)
    try:
        import importlib.metadata as md
        md.version('scikit-spatial')
    except Exception:
        # Another interpreter (NumPy 2 depth): the package metadata is not installed there.
        import importlib.metadata as md
        real = md.version
        md.version = lambda n: '0' if n == 'scikit-spatial' else real(n)
    import skspatial
    if not os.path.realpath(skspatial.__file__).startswith(os.path.realpath(src)):
        raise RuntimeError(f'skspatial comes from {skspatial.__file__}')
