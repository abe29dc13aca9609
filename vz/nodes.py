"""drive zounds processing nodes through the real featureflow graph, with full control
over how the input is cut into chunks and how several inputs interleave"""
import numpy as np
from featureflow import Node
from featureflow.extractor import Graph
from zounds.core import ArrayWithUnits

PAUSE = object()


class Source(Node):
    """root that emits `chunks` (PAUSE lets the other roots go first)"""

    def __init__(self, chunks):
        super(Source, self).__init__()
        self.chunks = chunks

    def process(self, data=None, pusher=None, queue=None):
        for c in self.chunks:
            yield None if c is PAUSE else self._push(c, queue=queue)
        self._finish(pusher=None, queue=queue)
        self._push(None, queue=queue)
        yield None

    def _process(self, data):
        yield data


class Sink(Node):
    def __init__(self, needs=None):
        super(Sink, self).__init__(needs=needs)
        self.got = []

    def _enqueue(self, data, pusher):
        self.got.append(data)

    def _dequeue(self):
        from featureflow import NotEnoughData
        raise NotEnoughData()

    def _process(self, data):
        yield data


def run(make, *inputs):
    """make(*sources) -> node or [nodes in order]; returns the last node's outputs"""
    sources = [Source(list(chunks)) for chunks in inputs]
    nodes = make(*sources)
    if not isinstance(nodes, (list, tuple)):
        nodes = [nodes]
    sink = Sink(needs=nodes[-1])
    g = dict(('src%d' % i, s) for i, s in enumerate(sources))
    g.update(('node%d' % i, n) for i, n in enumerate(nodes))
    g['sink'] = sink
    Graph(**g).process(**dict(('src%d' % i, 0) for i in range(len(sources))))
    return sink.got


def cuts(ctx, n, most=12, empty=False):
    """cut points of range(n): a list of (start, stop)"""
    kind = ctx.choice(['one', 'few', 'few', 'even', 'tiny', 'uneven'])
    if n <= 1 or kind == 'one':
        return [(0, n)]
    if kind == 'even':
        k = ctx.integer(1, max(1, n // 2))
        k = max(k, n // 200)
        pts = list(range(k, n, k))
    elif kind == 'tiny' and n <= 60:
        pts = list(range(1, n))
    elif kind == 'uneven':
        pts = sorted({1, n - 1, ctx.integer(1, n - 1)})
    else:
        pts = sorted({ctx.integer(1, n - 1) for _ in range(ctx.integer(1, most))})
    edges = [0] + pts + [n]
    return list(zip(edges[:-1], edges[1:]))


def chunked(ctx, arr, **kw):
    return [arr[a:b] for a, b in cuts(ctx, len(arr), **kw)]


def joined(outs):
    if not outs:
        return None
    return np.concatenate([np.asarray(o) for o in outs])
