"""In-process stand-in for multiprocessing.Pool.

Like the real pool it cuts the tasks into chunks of `chunksize`; a chunk is generated,
evaluated and returned as a whole (its results in order).  What the real pool leaves
open is a parameter:
  dispatch = "early"  every chunk is dispatched before the first result is consumed
             "late"   each chunk is dispatched after the previous one has been applied
  order(list_of_chunks) -> list_of_chunks   completion order (early dispatch only)"""
import contextlib
import itertools

import causy.graph_model as GM


class FakePool:
    def __init__(self, *a, **k):
        self.dispatch = "early"
        self.order = lambda chunks: chunks

    def imap_unordered(self, func, iterable, chunksize=1):
        it = iter(iterable)

        def run_chunk():
            tasks = list(itertools.islice(it, chunksize))
            return [func(list(t)) for t in tasks]

        if self.dispatch == "late":
            while True:
                rs = run_chunk()
                if not rs:
                    return
                yield from rs
        chunks = []
        while True:
            rs = run_chunk()
            if not rs:
                break
            chunks.append(rs)
        for rs in self.order(chunks):
            yield from rs

    def imap(self, func, iterable, chunksize=1):
        return iter([func(list(t)) for t in list(iterable)])

    def map(self, func, iterable, chunksize=None):
        return [func(list(t)) for t in list(iterable)]

    def starmap(self, func, iterable, chunksize=None):
        return [func(*t) for t in list(iterable)]

    def close(self):
        pass

    join = terminate = close


@contextlib.contextmanager
def fake_pool():
    saved = GM.mp.Pool, GM.mp.set_start_method
    GM.mp.Pool = FakePool
    GM.mp.set_start_method = lambda *a, **k: None
    try:
        yield
    finally:
        GM.mp.Pool, GM.mp.set_start_method = saved
