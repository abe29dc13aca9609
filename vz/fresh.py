"""A process of its own for the checks of persistence: python -m vz.fresh JOB OUT

Loads what another process stored, or trains the same again."""
import pickle
import sys
import warnings

warnings.simplefilter('ignore')


def main():
    import dill
    tasks = dill.load(open(sys.argv[1], 'rb'))
    out = []
    for kind, args in tasks:
        try:
            out.append(dict(load=load, train=train)[kind](*args))
        except Exception as e:
            import traceback
            out.append(dict(error=traceback.format_exc()[-1500:]))
    with open(sys.argv[2], 'wb') as f:
        pickle.dump(out, f)


def load(path, inputs):
    """nothing is imported but what loading itself imports"""
    import dill
    with open(path, 'rb') as f:
        pipe = dill.loads(f.read())
    return apply(pipe, inputs)


def train(steps, seed, data, inputs):
    from vz.checks import c27_trained
    pipe = c27_trained.direct(pickle.loads(steps), seed, data)
    return apply(pipe, inputs)


def apply(pipe, inputs):
    import numpy as np
    forward, backward = [], []
    for x in inputs:
        r = pipe.transform(x)
        forward.append(np.array(r.data))
        try:
            backward.append(np.array(r.inverse_transform()))
        except NotImplementedError:
            backward.append(None)
    return dict(
        version=pipe.version, versions=[p.op.version for p in pipe.processors],
        parts=[pipe[:1].version, pipe[[0]].version], forward=forward, backward=backward)


if __name__ == '__main__':
    main()
