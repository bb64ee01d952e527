"""Makes repeated construction of mounts in one process cheap; changes nothing but running time."""

import contextlib
import functools
import gc


def prepare():
    from .fusevfs import quiet

    with quiet():
        import ratarmount.FuseMount  # noqa: F401  imported once before forking
    # The versions of all installed Python modules are searched for each new index.
    with contextlib.suppress(Exception):
        from ratarmountcore import SQLiteIndex

        if not hasattr(SQLiteIndex.find_module_version, 'cache_info'):
            SQLiteIndex.find_module_version = functools.lru_cache(maxsize=None)(SQLiteIndex.find_module_version)

    gc.collect()
    gc.freeze()
