"""runs inside an interpreter with sanitizer runtimes preloaded and an instrumented
countbits on sys.path; prints one line of JSON.  argv: ext_dir npx.py seed rounds"""
import importlib.util
import json
import sys


def main():
    ext, npx, seed, rounds = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
    sys.path.insert(0, ext)
    import numpy as np
    import countbits
    assert countbits.__file__.startswith(ext), countbits.__file__
    spec = importlib.util.spec_from_file_location('npx', npx)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    rng = np.random.default_rng(seed)
    table8 = np.array([bin(i).count('1') for i in range(256)])
    n = dict(calls=0, words=0, mismatches=0, refused=0)
    first = None

    def bits(a):
        a = np.ascontiguousarray(a)
        return table8[a.view(np.uint8)].reshape(a.shape + (8,)).sum(axis=-1)

    def words(*shape):
        kind = rng.integers(4)
        a = np.frombuffer(rng.bytes(8 * int(np.prod(shape))), dtype=np.uint64).reshape(shape).copy()
        if kind == 0:
            a[...] = np.uint64(0xffffffffffffffff)
        elif kind == 1:
            a[...] = np.uint64(1) << np.uint64(rng.integers(64))
        return a

    def judge(name, got, want):
        nonlocal first
        n['calls'] += 1
        n['words'] += int(np.size(want))
        if np.shape(got) != np.shape(want) or not np.all(np.asarray(got) == want):
            n['mismatches'] += 1
            first = first or '%s: %r != %r' % (name, got, want)

    for i in range(rounds):
        l = int(rng.choice([0, 1, 2, 3, 7, int(rng.integers(1, 200)), int(rng.integers(1, 3000))]))
        w = int(rng.integers(0, 9))
        a = words(l)
        judge('count_bits', countbits.count_bits(a), bits(a))
        s = int(rng.integers(1, 4))
        for v in (a[::s], a[::-1], a[s:], a[:max(0, l - s)]):
            judge('count_bits view', countbits.count_bits(v), bits(v))
        t = words(l, w)
        judge('count_packed_bits', countbits.count_packed_bits(t), bits(t).sum(axis=1))
        for v in (t[::s], t[:, ::s], t[::-1, ::-1], np.asfortranarray(t), t[s:, 1:]):
            judge('count_packed_bits view', countbits.count_packed_bits(v), bits(v).sum(axis=1))
        q = words(w)
        judge('packed_hamming_distance', m.packed_hamming_distance(q, t), bits(q[None] ^ t).sum(axis=1))
        scalar = words(1)[0]
        judge('hamming_distance', m.hamming_distance(scalar, a), bits(a ^ scalar))
        for bad in (np.zeros(5, 'u4'), np.zeros((3, 3), 'f8'), np.zeros((2, 2, 2), 'u8')):
            for f in (countbits.count_bits, countbits.count_packed_bits):
                try:
                    f(bad)
                except (ValueError, TypeError):
                    n['refused'] += 1
        # churn the allocator so that neighbouring blocks change owners
        junk = [np.empty(int(rng.integers(1, 400)), np.uint64) for _ in range(5)]
        del junk
    n['first'] = first
    print(json.dumps(n))


main()
