"""C30: training loops and the application of networks"""
import contextlib
import copy
import io
import threading

import featureflow as ff
import torch
from torch import nn

from ..core import Check
from ..gen import *
from ..nodes import run
from ..perturb import Perturb
from .. import netzoo
from zounds.learn import (
    PyTorchAutoEncoder, PyTorchGan, PyTorchNetwork, SupervisedTrainer, TripletEmbeddingTrainer, WassersteinGanTrainer,
    apply_network, try_network)
from zounds.learn.trainer import Trainer
from zounds.learn import util

CHECK = Check(
    'C30',
    'Networks record every forward pass (rows, mode, weights) and losses and optimizers every step while the real '
    'trainers run. From the recorded minibatches the training is done again by a few lines of plain PyTorch, and the '
    'weights, scores and callbacks have to be the same; rows tell which example they are, so that examples left out, '
    'held out or mixed up with other labels are noticed.',
    technique='runtime monitoring of training traces, judged by an independent replay of the recorded minibatches',
    require=['training runs', 'supervised batches', 'held out batches', 'critic steps', 'generator steps',
             'triplet steps', 'chunked applications', 'callbacks', 'networks applied', 'concurrent callbacks',
             'endless rounds'])


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def weights(net, buffers=True):
    """all parameters and buffers, as bytes"""
    items = [(n, p.detach()) for n, p in net.named_parameters()]
    if buffers:
        items += list(net.named_buffers())
    return {n: p.cpu().numpy().copy() for n, p in items}


def different(a, b):
    return [k for k in a if not np.array_equal(a[k], b[k])]


class Watched(nn.Module):
    """records what it is given and what it makes of it"""

    def __init__(self, name, inner, log, others=()):
        super(Watched, self).__init__()
        self.name, self.inner = name, inner
        self.__dict__['log'] = log

    def forward(self, x, **kwargs):
        y = self.inner(x)
        self.log.append(dict(
            who=self.name, x=x.detach().numpy().copy(), y=y.detach().numpy().copy(), training=self.training,
            kwargs=kwargs, params=weights(self, False), buffers={n: b.numpy().copy() for n, b in self.named_buffers()}))
        return y


class Mixed(nn.Module):
    """small enough to be quick, with everything that behaves differently in training"""

    def __init__(self, n, out, norm=True, drop=0.0, last=None):
        super(Mixed, self).__init__()
        self.n = n
        self.l1 = nn.Linear(n, 5)
        self.bn = nn.BatchNorm1d(5) if norm else nn.Identity()
        self.drop = nn.Dropout(drop)
        self.l2 = nn.Linear(5, out)
        self.last = last

    def forward(self, x):
        x = x.reshape((x.shape[0], -1))
        x = self.drop(torch.tanh(self.bn(self.l1(x))))
        x = self.l2(x)
        return torch.sigmoid(x) if self.last == 'sigmoid' else x


def rows_of(x):
    return [np.ascontiguousarray(r).tobytes() for r in x]


def epochs_of(calls, epochs, checkpoint):
    """the epochs of each call"""
    cur = 0
    for _ in range(calls):
        stop = min(cur + checkpoint, epochs)
        yield list(range(cur, stop))
        cur = max(cur, stop)


def same_weights(ctx, net, ref, key, *msg, leave=None):
    a, b = weights(net), weights(ref)
    a.pop(leave, None), b.pop(leave, None)
    ctx.eq(sorted(a), sorted(b), key, *msg)
    for k in a:
        if a[k].dtype.kind == 'f':
            ctx.close(a[k], b[k], key, k, *msg, rtol=1e-4, atol=1e-6)
        else:
            ctx.eq(a[k], b[k], key, k, *msg)


@CHECK.family(80, 1500, cpu=240, need=['batches', 'weights', 'callbacks'])
def supervised(ctx):
    """SupervisedTrainer: batches, labels, what is held out, steps and callbacks"""
    n = ctx.integer(3, 60)
    size = ctx.choice([1, 2, ctx.integer(1, 20), n, n + 5])
    shape = ctx.choice([(4,), (2, 3)])
    out = ctx.integer(1, 3)
    norm = ctx.coin(0.7) and size > 1 and True
    holdout = ctx.choice([0.0, 0.0, 0.25, 0.5, 0.1])
    held = int(holdout * n)
    if norm and (n - held) % size == 1:
        norm = False                        # batch normalization refuses single examples
    epochs, checkpoint, calls = ctx.integer(1, 4), ctx.integer(1, 3), ctx.integer(1, 4)
    factor = ctx.choice([1.0, 2.0])
    lr = ctx.choice([0.1, 0.01])
    kind = ctx.choice(['sgd', 'momentum', 'adam'])
    norm = norm and kind != 'adam'          # the bias in front of it only moves by noise, of which Adam makes a lot
    ctx.say(n, 'examples', shape, 'batches of', size, 'held out', held, 'epochs', epochs, 'per call', checkpoint,
            'calls', calls, kind, 'norm' if norm else '')

    def optimizer(model):
        ps = model.parameters()
        if kind == 'adam':
            return torch.optim.Adam(ps, lr=lr)
        return torch.optim.SGD(ps, lr=lr, momentum=0.9 if kind == 'momentum' else 0)

    ctx.seed_global()
    torch.manual_seed(ctx.integer(0, 10 ** 6))
    log, losses, calls_made = [], [], []
    net = Watched('net', Mixed(int(np.prod(shape)), out, norm), log)
    start = copy.deepcopy(net)
    start.__dict__['log'] = []
    data = ctx.rng.normal(0, 1, (n,) + shape)
    labels = ctx.rng.normal(0, 1, (n, out))
    kept = data.copy(), labels.copy()
    which = {r: i for i, r in enumerate(rows_of((data * factor).astype(np.float32)))}
    whose = {r: i for i, r in enumerate(rows_of(labels.astype(np.float32)))}
    mse = nn.MSELoss()

    class Loss(nn.Module):
        def forward(self, output, target):
            e = mse(output, target)
            losses.append((output.detach().numpy().copy(), target.detach().numpy().copy(), e.item()))
            log.append(dict(who='loss', index=len(losses) - 1))
            return e

    trainer = SupervisedTrainer(
        net, Loss(), optimizer, epochs, size, holdout_percent=holdout, checkpoint_epochs=checkpoint,
        data_preprocessor=lambda x: (x * factor).astype(np.float32),
        label_preprocessor=lambda x: x.astype(np.float32))
    ctx.raises(trainer.random_sample, 'samples', types=(RuntimeError,))

    def called(**kwargs):
        log.append(dict(who='callback', **{k: v for k, v in kwargs.items() if k != 'samples'}))
        calls_made.append(kwargs)

    trainer.register_batch_complete_callback(called)
    plan = list(epochs_of(calls, epochs, checkpoint))
    for _ in range(calls):
        with quiet():
            got = trainer.train(dict(data=data, labels=labels))
        ctx.expect(got is net, 'batches', 'another network')
        got.eval()
    ctx.eq(data, kept[0], 'batches', 'data changed')
    ctx.eq(labels, kept[1], 'batches', 'labels changed')
    ctx.count('training runs')

    ref = start
    opt = optimizer(ref)
    wanted = [e for call in plan for e in call]
    batches = -(-(n - held) // size)
    ctx.eq(len(calls_made), batches * len(wanted), 'callbacks', 'batches', batches, 'epochs', wanted)
    events = iter(log)
    for epoch in wanted:
        seen = []
        for b in range(batches):
            train = test = None
            while True:
                e = next(events)
                if e['who'] == 'callback':
                    break
                ctx.eq(e['who'], 'net', 'batches', 'order')
                loss = next(events)
                ctx.eq(loss['who'], 'loss', 'batches', 'order')
                output, target, value = losses[loss['index']]
                ctx.eq(output, e['y'], 'batches', 'loss of another output')
                rows = [which.get(r) for r in rows_of(e['x'])]
                ctx.expect(None not in rows, 'batches', 'rows that are not of the data')
                ctx.eq([whose.get(r) for r in rows_of(target)], rows, 'batches', 'labels of other examples')
                if all(r < held for r in rows):
                    ctx.expect(test is None, 'batches', 'more than one batch of held out examples')
                    ctx.expect(not e['training'], 'batches', 'held out examples in training mode')
                    test = value
                    ctx.count('held out batches')
                else:
                    ctx.expect(all(r >= held for r in rows), 'batches', 'trained with held out examples')
                    ctx.expect(train is None, 'batches', 'more than one batch')
                    ctx.expect(e['training'], 'batches', 'not in training mode')
                    ctx.expect(len(rows) <= size, 'batches', 'size', len(rows))
                    train = value
                    seen += rows
                    ref.train()
                    ref.zero_grad()
                    mse(ref(torch.from_numpy(e['x'])), torch.from_numpy(target)).backward()
                    opt.step()
                    ctx.count('supervised batches')
            ctx.eq(e['epoch'], epoch, 'callbacks', 'epoch')
            ctx.eq(e['batch'], b * size, 'callbacks', 'batch')
            ctx.eq(e['train_error'], train, 'callbacks', 'training error')
            ctx.expect(e['test_error'] == (test if held else 'n/a'), 'callbacks', 'test error', e['test_error'], test)
        ctx.eq(sorted(seen), list(range(held, n)), 'batches', 'every example once an epoch')
    ctx.eq(list(events), [], 'batches', 'after the last epoch')
    same_weights(ctx, net, ref, 'weights')
    if wanted:
        inp, output = trainer.random_sample()
        ctx.expect(inp.detach().numpy().tobytes() in which, 'samples', 'of the data')
    ctx.count('callbacks', len(calls_made))


@CHECK.family(40, 800, cpu=300, need=['steps', 'weights', 'callbacks'])
def adversarial(ctx):
    """WassersteinGanTrainer: who is trained when, on what"""
    n = ctx.integer(3, 30)
    size = ctx.choice([1, 2, 4, 8])
    shape = ctx.choice([(4,), (2, 3), (2, 2, 2)])
    latent = ctx.choice([(2,), (3, 1)])
    critics = ctx.integer(1, 4)
    epochs, checkpoint, calls = ctx.integer(1, 3), ctx.integer(1, 2), ctx.integer(1, 3)
    scaled = ctx.coin(0.3)
    extra = ctx.coin(0.3)
    norm = ctx.coin(0.4) and size > 1
    ctx.say(n, 'examples', shape, 'batches of', size, 'critic steps', critics, 'epochs', epochs, 'per call', checkpoint,
            'calls', calls, 'preprocessed' if scaled else '')
    ctx.seed_global()
    torch.manual_seed(ctx.integer(0, 10 ** 6))
    log, calls_made = [], []

    class Shaped(nn.Module):
        def __init__(self):
            super(Shaped, self).__init__()
            self.inner = Mixed(int(np.prod(latent)), int(np.prod(shape)), norm)

        def forward(self, x):
            return self.inner(x).reshape((x.shape[0],) + shape)

    class Both(nn.Module):
        def __init__(self):
            super(Both, self).__init__()
            self.generator = Watched('generator', Shaped(), log)
            self.discriminator = Watched('critic', Mixed(int(np.prod(shape)), 1, False), log)

    net = Both()
    ref = copy.deepcopy(net)
    ref.generator.__dict__['log'] = []
    ref.discriminator.__dict__['log'] = []
    data = ctx.rng.normal(0, 1, (n,) + shape)
    kept = data.copy()
    whole = data.astype(np.float32)
    scale = (lambda epoch: 0.5 / (1 + epoch)) if scaled else (lambda epoch: 1.0)
    trainer = WassersteinGanTrainer(
        net, latent, critics, epochs, size, checkpoint_epochs=checkpoint,
        preprocess_minibatch=(lambda epoch, x: x * scale(epoch)) if scaled else None,
        kwargs_factory=(lambda epoch: dict(epoch=epoch)) if extra else None)

    def called(**kwargs):
        log.append(dict(who='callback', params=weights(net, False), **{
            k: kwargs[k] for k in ('epoch', 'batch', 'generator_score', 'real_score', 'critic_loss')}))
        log[-1]['samples'] = kwargs['samples'].detach().numpy().copy()
        ctx.expect(kwargs['network'] is net, 'callbacks', 'network')
        calls_made.append(1)

    trainer.register_batch_complete_callback(called)
    plan = list(epochs_of(calls, epochs, checkpoint))
    for _ in range(calls):
        with quiet():
            got = trainer.train(data)
        ctx.expect(got is net, 'steps', 'another network')
        got.eval()
    ctx.eq(data, kept, 'steps', 'data changed')
    ctx.count('training runs')

    g_opt = torch.optim.Adam(ref.generator.parameters(), lr=0.0001, betas=(0, 0.9))
    c_opt = torch.optim.Adam(ref.discriminator.parameters(), lr=0.0001, betas=(0, 0.9))
    wanted = [e for call in plan for e in call]
    batches = -(-n // size)
    ctx.eq(len(calls_made), batches * len(wanted), 'callbacks', 'batches', batches, 'epochs', wanted)
    events = list(log)
    noises, alphas = [], []
    at = 0
    for epoch in wanted:
        real_rows = set(rows_of(whole * np.float32(scale(epoch)) if scaled else whole))
        if scaled:
            real_rows = set(rows_of((torch.from_numpy(whole) * scale(epoch)).numpy()))
        for b in range(batches):
            part = []
            while events[at]['who'] != 'callback':
                part.append(events[at])
                at += 1
            done = events[at]
            at += 1
            for e in part:
                ctx.expect(e['training'], 'steps', e['who'], 'not in training mode')
                ctx.eq(e['kwargs'], dict(epoch=epoch) if extra else {}, 'steps', 'arguments')
                if e['who'] == 'generator':
                    ctx.eq(e['x'].shape, (size,) + latent, 'steps', 'noise')
                    noises.append(e['x'])
                else:
                    ctx.eq(e['x'].shape, (size,) + shape, 'steps', 'batch')
            # what the critic is shown: examples, what the generator made, and points in between
            fake = real = None
            groups, group = [], {}
            for e in part:
                if e['who'] == 'generator':
                    fake = torch.from_numpy(e['y'])
                    made = (fake * scale(epoch) if scaled else fake).numpy()
                    group['noise'] = e
                    group['made'] = made
                    continue
                if all(r in real_rows for r in rows_of(e['x'])):
                    kind = 'real'
                elif 'made' in group and np.array_equal(e['x'], group['made']):
                    kind = 'fake'
                else:
                    kind = 'between'
                ctx.expect(kind not in group, 'steps', 'the critic was shown', kind, 'twice', len(groups))
                group[kind] = e
                if len(group) == (5 if len(groups) < critics else 3):
                    groups.append(group)
                    group = {}
            ctx.eq(group, {}, 'steps', 'incomplete')
            ctx.eq(len(groups), critics + 1, 'steps', 'critic steps for each of the generator')
            for g in groups[:-1]:
                ctx.expect({'real', 'fake', 'between', 'noise', 'made'} == set(g), 'steps', list(g))
                for e in (g['real'], g['fake'], g['between']):
                    now(ctx, e['params'], ref.discriminator, 'critic')
                now(ctx, g['noise']['params'], ref.generator, 'generator')
                r, f, m = [torch.from_numpy(g[k]['x']) for k in ('real', 'fake', 'between')]
                axes = tuple(range(1, r.dim()))
                d = (r - f)
                alpha = ((m - f) * d).sum(axes, keepdim=True) / (d * d).sum(axes, keepdim=True)
                ctx.expect(bool(((alpha > -1e-3) & (alpha < 1 + 1e-3)).all()), 'steps', 'between', alpha)
                ctx.close(m.numpy(), (alpha * r + (1 - alpha) * f).numpy(), 'steps', 'between', rtol=1e-3, atol=1e-4)
                alphas.append(alpha.numpy().ravel())
                ref.discriminator.zero_grad()
                m.requires_grad_(True)
                out = ref.discriminator(m)
                grads, = torch.autograd.grad(out.sum(), m, create_graph=True)
                penalty = ((grads.reshape((size, -1)).norm(2, dim=1) - 1) ** 2).mean() * 10
                real_score = ref.discriminator(r).mean()
                loss = ref.discriminator(f).mean() - real_score + penalty
                loss.backward()
                stepped(c_opt, ref.discriminator)
                ctx.count('critic steps')
            g = groups[-1]
            ctx.expect({'fake', 'noise', 'made'} == set(g), 'steps', list(g))
            now(ctx, g['fake']['params'], ref.discriminator, 'critic, for the generator')
            now(ctx, g['noise']['params'], ref.generator, 'generator')
            ctx.eq(done['samples'], g['made'], 'callbacks', 'samples')
            ref.generator.zero_grad()
            made = ref.generator(torch.from_numpy(g['noise']['x']))
            score = -ref.discriminator(made * scale(epoch)).mean()
            score.backward()
            stepped(g_opt, ref.generator)
            ctx.count('generator steps')
            ctx.eq(done['epoch'], epoch, 'callbacks', 'epoch')
            ctx.eq(done['batch'], b * size, 'callbacks', 'batch')
            for k, v in dict(generator_score=score, real_score=real_score, critic_loss=loss).items():
                ctx.close(done[k], v.item(), 'callbacks', k, rtol=1e-3, atol=1e-4)
            now(ctx, {k[len('generator.'):]: v for k, v in done['params'].items() if k.startswith('generator')},
                ref.generator, 'generator, afterwards')
            now(ctx, {k[len('discriminator.'):]: v for k, v in done['params'].items() if k.startswith('discr')},
                ref.discriminator, 'critic, afterwards')
    ctx.eq(at, len(events), 'steps', 'after the last epoch')
    if len(alphas) > 3:
        # points anywhere in between, for each example of its own
        ctx.expect(np.ptp([a[0] for a in alphas]) > 1e-3, 'steps', 'between', 'always at', alphas[0])
        if size > 1:
            ctx.expect(max(np.ptp(a) for a in alphas) > 1e-3, 'steps', 'between', 'all examples at', alphas[0])
    if noises:
        flat = [x.tobytes() for x in noises]
        ctx.eq(len(set(flat)), len(flat), 'steps', 'the same noise again')
        x = np.concatenate([x.ravel() for x in noises])
        ctx.expect(abs(x.mean()) < 7 / math.sqrt(len(x)), 'steps', 'noise', x.mean())
        ctx.expect(abs((x ** 2).mean() - 1) < 10 * math.sqrt(2. / len(x)), 'steps', 'noise', (x ** 2).mean())
    ctx.expect(True, 'weights')
    ctx.count('callbacks', len(calls_made))


def stepped(opt, ref):
    """a step, remembering which weights it moves by no more than noise: Adam's first steps only look at the sign"""
    top = max(p.grad.abs().max().item() for p in ref.parameters())
    doubt = ref.__dict__.setdefault('doubt', {})
    for n, p in ref.named_parameters():
        doubt[n] = doubt.get(n, False) | (p.grad.abs() < 1e-3 * top).numpy()
    opt.step()


def now(ctx, params, ref, who):
    """weights as they have to be at this point"""
    doubt = ref.__dict__.pop('doubt', {})
    for k, v in weights(ref, False).items():
        d = doubt.get(k, np.zeros(v.shape, dtype=bool))
        ctx.close(params[k][~d], v[~d], 'weights', who, k, rtol=1e-4, atol=2e-6)
        ctx.close(params[k], v, 'weights', who, k, 'a step too far', rtol=1e-4, atol=1e-3)
        if d.any():
            with torch.no_grad():
                dict(ref.named_parameters())[k].copy_(torch.from_numpy(params[k]))


@CHECK.family(50, 1000, cpu=240, need=['steps', 'weights', 'callbacks'])
def triplets(ctx):
    """TripletEmbeddingTrainer: anchors, positives and negatives"""
    n = ctx.integer(2, 40)
    size = ctx.integer(1, min(n, 8))
    width = 6
    a, b = ctx.choice([(0, 6), (1, 5), (2, 4)])
    deep = ctx.choice([(), (2,)])
    epochs, checkpoint, calls = ctx.integer(1, 3), ctx.integer(1, 2), ctx.integer(1, 4)
    freeze = ctx.coin(0.4)
    ctx.say(n, 'examples', 'batches of', size, 'epochs', epochs, 'per call', checkpoint, 'calls', calls)
    ctx.seed_global()
    torch.manual_seed(ctx.integer(0, 10 ** 6))
    log, calls_made, deformed = [], [], []
    net = Watched('net', Mixed((b - a) * int(np.prod(deep)), 3, ctx.coin() and size > 1), log)
    if freeze:
        for p in net.inner.l1.parameters():
            p.requires_grad = False
    ref = copy.deepcopy(net)
    ref.__dict__['log'] = []
    data = ctx.rng.normal(0, 1, (n, width) + deep)
    kept = data.copy()
    which = {r: i for i, r in enumerate(rows_of(data[:, a:b].astype(np.float32)))}
    wider = {r: i for i, r in enumerate(rows_of(data))}

    def negated(anchor, wide):
        return made('negated', anchor, wide, -anchor)

    def adjacent(anchor, wide):
        return made('adjacent', anchor, wide, wide[:, :b - a] * 0.5)

    def made(name, anchor, wide, result):
        deformed.append(dict(name=name, anchor=anchor.copy(), wide=wide.copy(), result=result.copy()))
        return result

    trainer = TripletEmbeddingTrainer(
        net, epochs, size, slice(a, b), deformations=[negated, adjacent], checkpoint_epochs=checkpoint)

    def called(**kwargs):
        log.append(dict(who='callback', **kwargs))
        calls_made.append(1)

    trainer.register_batch_complete_callback(called)
    plan = list(epochs_of(calls, epochs, checkpoint))
    marks = []
    for _ in range(calls):
        with quiet():
            got = trainer.train(dict(data=data))
        ctx.expect(got is net, 'steps', 'another network')
        got.eval()
        marks.append(len(log))
    ctx.eq(data, kept, 'steps', 'data changed')
    ctx.count('training runs')
    batches = n // size
    inside, negatives = 0, 0
    ctx.eq(len(calls_made), batches * sum(map(len, plan)), 'callbacks', 'batches', batches, 'epochs', plan)
    events, deforms = iter(log), iter(deformed)
    loss = nn.TripletMarginLoss(margin=0.1)

    def unit(x):
        return x / (x.norm(2, dim=1, keepdim=True) + 1e-8)

    for call in plan:
        opt = torch.optim.Adam([p for p in ref.parameters() if p.requires_grad], lr=1e-5)
        for epoch in call:
            for batch in range(batches):
                part = []
                for e in events:
                    if e['who'] == 'callback':
                        break
                    part.append(e)
                ctx.eq(len(part), 3, 'steps', 'passes')
                d = next(deforms)
                anchor = [which.get(r) for r in rows_of(d['anchor'].astype(np.float32))]
                ctx.expect(None not in anchor and len(anchor) == size, 'steps', 'anchors', anchor)
                ctx.eq([wider.get(r) for r in rows_of(d['wide'])], anchor, 'steps', 'wider examples')
                xs = {}
                for p in part:
                    ctx.expect(p['training'], 'steps', 'not in training mode')
                    if np.array_equal(p['x'], d['anchor'].astype(np.float32)) and 'anchor' not in xs:
                        xs['anchor'] = p['x']
                    elif np.array_equal(p['x'], d['result'].astype(np.float32)) and 'positive' not in xs:
                        xs['positive'] = p['x']
                    else:
                        xs['negative'] = p['x']
                        ids = [which.get(r) for r in rows_of(p['x'])]
                        ctx.expect(None not in ids and len(ids) == size, 'steps', 'negatives', ids)
                        inside += sum(i in anchor for i in ids)
                        negatives += len(ids)
                ctx.eq(sorted(xs), ['anchor', 'negative', 'positive'], 'steps', 'batches')
                ref.train()
                ref.zero_grad()
                an, ne, po = [unit(ref(torch.from_numpy(xs[k]))) for k in ('anchor', 'negative', 'positive')]
                error = loss(an, po, ne)
                error.backward()
                opt.step()
                ctx.count('triplet steps')
                ctx.eq(e['epoch'], epoch, 'callbacks', 'epoch')
                ctx.eq(e['batch'], batch, 'callbacks', 'batch')
                ctx.eq(e['deformation'], d['name'], 'callbacks', 'deformation')
                ctx.close(e['error'], error.item(), 'callbacks', 'error', rtol=1e-3, atol=1e-5)
    ctx.eq(list(events), [], 'steps', 'after the last epoch')
    # negatives may come from anywhere: hardly ever all of them from among the anchors
    if (size / float(n)) ** negatives < 1e-12:
        ctx.expect(inside < negatives, 'steps', 'negatives all from among the anchors')
        ctx.count('negatives from anywhere')
    same_weights(ctx, net, ref, 'weights', leave='inner.l1.bias')     # which may move by noise only
    ctx.count('callbacks', len(calls_made))


@CHECK.family(60, 1500, need=['epochs', 'minibatch'])
def base(ctx):
    """Trainer: epochs, steps and callbacks of any training step"""
    n = ctx.integer(1, 50)
    size = ctx.integer(1, 20)
    epochs, checkpoint, calls = ctx.integer(0, 4), ctx.integer(1, 3), ctx.integer(1, 5)
    data = ctx.rng.normal(0, 1, (n, 3)).astype(np.float32)
    ids = {r: i for i, r in enumerate(rows_of(data))}
    steps, seen, others = [], [], []
    ctx.seed_global()

    class Own(Trainer):
        def __init__(self):
            super(Own, self).__init__(epochs, size, checkpoint_epochs=checkpoint)
            self.network = nn.Linear(3, 1)

        def _training_step(self, epoch, batch, data):
            x = self._minibatch(data).numpy()
            ctx.eq(len(x), size, 'minibatch', 'size')
            got = [ids.get(r) for r in rows_of(x)]
            ctx.expect(None not in got, 'minibatch', 'rows of the data')
            steps.append((epoch, batch))
            return dict(score=len(steps))

    class Listener(object):
        def heard(self, **kwargs):
            others.append(kwargs)

    t = Own()
    listener = Listener()
    t.unregister_batch_complete_callback(listener.heard)

    def called(**kwargs):
        ctx.expect(kwargs['network'] is t.network, 'epochs', 'network')
        seen.append((kwargs['epoch'], kwargs['batch']))
        ctx.eq(kwargs['score'], len(steps), 'epochs', 'results')

    t.register_batch_complete_callback(called)
    t.register_batch_complete_callback(called)
    t.register_batch_complete_callback(listener.heard)
    heard = 0
    on = True
    for es in epochs_of(calls, epochs, checkpoint):
        before = len(steps)
        got = t.train(data)
        ctx.expect(got is t.network, 'epochs', 'network')
        want = [(e, i) for e in es for i in range(0, n, size)]
        ctx.eq(steps[before:], want, 'epochs', 'steps of', es)
        heard += len(want) if on else 0
        ctx.eq(len(others), heard, 'epochs', 'callbacks while', 'registered' if on else 'not registered')
        if ctx.coin(0.4):
            on = not on
            (t.register_batch_complete_callback if on else t.unregister_batch_complete_callback)(listener.heard)
    ctx.eq(seen, steps, 'epochs', 'callbacks')
    ctx.count('training runs')
    ctx.count('callbacks', len(seen))


@CHECK.family(40, 800, cpu=240, need=['listening'])
def listeners(ctx):
    """callbacks come and go, from other threads and from callbacks, while training runs"""
    steps = 40
    stop = threading.Event()

    class Own(Trainer):
        def _training_step(self, epoch, batch, data):
            return dict()

    t = Own(1, 1)
    t.network = nn.Linear(1, 1)
    seen, errors, once = [], [], []
    t.register_batch_complete_callback(lambda **k: seen.append(k['batch']))

    def first(**kwargs):
        once.append(1)
        t.unregister_batch_complete_callback(first)

    t.register_batch_complete_callback(first)

    def come_and_go():
        try:
            while not stop.is_set():
                f = lambda **k: None
                t.register_batch_complete_callback(f)
                ctx.count('concurrent callbacks')
                t.unregister_batch_complete_callback(f)
        except Exception as e:
            errors.append(repr(e))

    with Perturb(['learn/trainer.py'], ctx.integer(0, 10 ** 9), p=ctx.choice([0.05, 0.2]), longest=3e-4):
        th = threading.Thread(target=come_and_go)
        th.start()
        try:
            t.train(np.zeros((steps, 1)))
        except RuntimeError as e:
            ctx.fail('listening', 'training ended by', repr(e))
        finally:
            stop.set()
            th.join()
    ctx.eq(errors, [], 'listening')
    ctx.eq(seen, list(range(steps)), 'listening', 'batches heard of')
    ctx.eq(len(once), 1, 'listening', 'after unregistering itself')


@CHECK.family(200, 8000, need=['chunks'])
def application(ctx):
    """networks applied in chunks"""
    n = ctx.integer(1, 40)
    shape = ctx.choice([(4,), (2, 3)])
    torch.manual_seed(ctx.integer(0, 10 ** 6))
    net = Mixed(int(np.prod(shape)), 3, ctx.coin(), drop=ctx.choice([0.0, 0.5])).eval()
    x = ctx.rng.normal(0, 1, (n,) + shape).astype(np.float32)
    keep = x.copy()
    with torch.no_grad():
        want = net(torch.from_numpy(x)).numpy()
    before = weights(net)
    ctx.close(apply_network(net, x), want, 'chunks', 'whole', rtol=1e-5, atol=1e-6)
    for chunk in [1, ctx.integer(1, n), n, n + 3]:
        got = apply_network(net, x, chunksize=chunk)
        ctx.expect(type(got) is np.ndarray and got.dtype == np.float32, 'chunks', type(got))
        ctx.close(got, want, 'chunks', 'chunks of', chunk, 'for', n, rtol=1e-5, atol=1e-6)
        ctx.count('chunked applications')
    ctx.close(util.from_var(try_network(net, x)), want, 'chunks', 'try_network', rtol=1e-5, atol=1e-6)
    ctx.eq(x, keep, 'chunks', 'input changed')
    ctx.eq(different(before, weights(net)), [], 'chunks', 'network changed')
    ctx.expect(all(p.grad is None for p in net.parameters()), 'chunks', 'gradients')
    # equal networks have equal hashes
    h = util.model_hash(net)
    ctx.eq(util.model_hash(copy.deepcopy(net)), h, 'hash', 'of a copy')
    # those that aren't trained belong to it, too
    for p in net.parameters():
        p.requires_grad = ctx.coin()
    ctx.eq(util.model_hash(net), h, 'hash', 'of a frozen network')
    with torch.no_grad():
        p = ctx.choice(list(net.parameters()))
        p.view(-1)[ctx.integer(0, p.numel() - 1)] += 0.5
    ctx.expect(util.model_hash(net) != h, 'hash', 'of other weights')
    for p in net.parameters():
        p.requires_grad = True
    ctx.eq(list(util.gradients(net)), [], 'gradients', 'none yet')
    net(torch.from_numpy(x)).sum().backward()
    got = {g[0]: g[1:] for g in util.gradients(net)}
    for name, q in net.named_parameters():
        if q.grad is not None:
            want = q.grad.min().item(), q.grad.max().item(), q.grad.mean().item()
            ctx.close(got[name], want, 'gradients', name, rtol=1e-5, atol=1e-7)


@CHECK.family(40, 800, cpu=240, need=['result'])
def nodes(ctx):
    """networks trained within a graph"""
    kind = ctx.choice(['network', 'network', 'gan', 'autoencoder'])
    n = ctx.integer(10, 60)
    size = ctx.choice([2, 4, 8])
    if n % size == 1:
        n += 1
    x = ctx.rng.normal(0, 1, (n, 4)).astype(np.float32)
    how = ctx.choice(['plain', 'units'])
    if how == 'units':
        x = ArrayWithUnits(x, [TimeDimension(Seconds(1)), IdentityDimension()])
    ctx.say(kind, n, 'examples', how, 'batches of', size)
    ctx.seed_global()
    torch.manual_seed(ctx.integer(0, 10 ** 6))
    epochs = ctx.integer(1, 3)
    fed = x

    class Encoding(nn.Module):
        def __init__(self):
            super(Encoding, self).__init__()
            self.encoder = Mixed(4, 2, True, 0.3)
            self.decoder = Mixed(2, 4, True, 0.3)

        def forward(self, x):
            return self.decoder(self.encoder(x))

    class Both(nn.Module):
        def __init__(self):
            super(Both, self).__init__()
            self.generator = Mixed(2, 4, True, 0.3)
            self.discriminator = Mixed(4, 1, False, 0.3)

    sgd = lambda model: torch.optim.SGD(model.parameters(), lr=0.1)
    with quiet():
        if kind == 'gan':
            which = ctx.choice(['generator', 'discriminator'])
            trainer = WassersteinGanTrainer(Both(), (2,), 2, epochs, size, checkpoint_epochs=epochs)
            out = run(lambda s: PyTorchGan(apply_network=which, trainer=trainer, needs=s), [x])
        elif kind == 'autoencoder':
            trainer = SupervisedTrainer(Encoding(), nn.MSELoss(), sgd, epochs, size, checkpoint_epochs=epochs)
            out = run(lambda s: PyTorchAutoEncoder(trainer=trainer, needs=s), [x])
        else:
            trainer = SupervisedTrainer(Mixed(4, 2, True, 0.3), nn.MSELoss(), sgd, epochs, size,
                                        checkpoint_epochs=epochs)
            labels = ctx.rng.normal(0, 1, (n, 2)).astype(np.float32)
            chunk = ctx.choice([None, 3])
            kw = dict()
            seen = []
            m = ctx.integer(size + 2, n) if n > size + 2 else n
            m = n if m % size == 1 else m
            if ctx.coin():
                kw['training_set_prep'] = lambda d: dict(data=d['data'][:m], labels=d['labels'][:m])
            else:
                m = n
            if ctx.coin():
                kw['post_training_func'] = lambda d: d[:5]
            train = trainer.train
            trainer.train = lambda d: (seen.append(d), train(d))[1]
            node = PyTorchNetwork(trainer=trainer, chunksize=chunk, **kw)
            out = list(node._process(dict(data=x, labels=labels)))
            ctx.eq(np.asarray(seen[0]['data']), np.asarray(x[:m]), 'result', 'training set')
            ctx.eq(seen[0]['labels'], labels[:m], 'result', 'training set')
            fed = x[:m][:5] if 'post_training_func' in kw else x[:m]
    ctx.eq(len(out), 1, 'result', 'outputs')
    r = out[0]
    net = trainer.network
    ctx.expect(all(not m.training for m in net.modules()), 'result', 'in evaluation mode')
    ctx.expect(all(p.grad is None or not p.grad.abs().sum() for p in net.parameters()), 'result', 'gradients left')
    part = dict(network=lambda: net, autoencoder=lambda: net.encoder)
    part = net.discriminator if kind == 'gan' else part[kind]()
    with torch.no_grad():
        want = part(torch.from_numpy(np.array(fed))).numpy()
    ctx.close(np.asarray(r.data), want, 'result', 'data passed on', rtol=1e-5, atol=1e-6)
    if how == 'units' and kind != 'gan':
        ctx.expect(isinstance(r.data, ArrayWithUnits), 'result', 'units')
        ctx.expect(r.data.dimensions[0] == x.dimensions[0], 'result', 'units')
    if kind == 'gan':
        part = getattr(net, which)
    wide = part.n
    for m in (1, 2, ctx.integer(1, 300)):
        y = ctx.rng.normal(0, 1, (m, wide)).astype(np.float32)
        with torch.no_grad():
            want = part(torch.from_numpy(y)).numpy()
        got = r.op(y)
        ctx.close(np.asarray(got), want, 'result', 'batches of', m, rtol=1e-5, atol=1e-6)
        if kind == 'autoencoder':
            with torch.no_grad():
                want = net.decoder(torch.from_numpy(want)).numpy()
            back = r.inverse(np.asarray(got), **r.inversion_data(y))
            ctx.close(np.asarray(back), want, 'result', 'decoded', rtol=1e-5, atol=1e-6)
        ctx.count('networks applied')


class Failing(nn.Module):
    def __init__(self):
        super(Failing, self).__init__()
        self.l = nn.Linear(4, 2)

    def forward(self, x):
        raise RuntimeError('out of memory, say')


@CHECK.family(10, 100, need=['failure'])
def failures(ctx):
    """a network that cannot be run says why"""
    x = np.zeros((4, 4), dtype=np.float32)
    t = SupervisedTrainer(Failing(), nn.MSELoss(), lambda m: torch.optim.SGD(m.parameters(), lr=0.1), 1, 2)
    try:
        with quiet():
            t.train(dict(data=x, labels=x[:, :2]))
        ctx.fail('failure', 'went unnoticed')
    except RuntimeError as e:
        ctx.expect('out of memory' in str(e), 'failure', repr(e))
    trainer = netzoo.Trainer(Failing(), 1, 2)
    import warnings
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter('always')
        node = ctx.choice([PyTorchNetwork(trainer=trainer), None])
        data = dict(data=x, labels=x)
        if node is None:
            class Two(nn.Module):
                def __init__(self):
                    super(Two, self).__init__()
                    self.generator = self.discriminator = Failing()
            trainer.network = Two()
            node, data = PyTorchGan(trainer=trainer), x
        out = list(node._process(data))
    ctx.expect(any('out of memory' in str(c.message) for c in caught), 'failure', 'warned of')
    ctx.expect(out[0].data is None, 'failure', 'data passed on')


class Over(Exception):
    pass


@CHECK.family(24, 300, cpu=240, need=['endless'])
def endless(ctx):
    """networks trained on endless rounds of samples from stored documents: the last checkpoint can be loaded"""
    class Passed(ff.Node):
        def _process(self, data):
            yield data

    def settings(_id_=None):
        builder = ff.StringDelimitedKeyBuilder()

        class Settings(ff.PersistenceSettings):
            id_provider = ff.StaticIdProvider(_id_) if _id_ else ff.UuidProvider()
            key_builder = builder
            # featureflow's in-memory store loses what is written more than once
            database = ff.FileSystemDatabase(path=ctx.scratch(), key_builder=builder, createdirs=True) \
                if _id_ else ff.InMemoryDatabase(key_builder=builder)
        if _id_:
            Settings._id = _id_
        return Settings

    class Document(ff.BaseModel, settings()):
        raw = ff.PickleFeature(Passed, store=True)

    rows = 0
    for _ in range(ctx.integer(1, 3)):
        m = ctx.integer(2, 30)
        rows += m
        Document.process(raw=ctx.rng.normal(0, 1, (m, 4)))
    ctx.seed_global()
    torch.manual_seed(ctx.integer(0, 10 ** 6))

    checkpoint, size = ctx.integer(1, 2), ctx.choice([2, 5])
    trainer = WassersteinGanTrainer(
        netzoo.Pair(2, 4), (2,), 1, 100, size, checkpoint_epochs=checkpoint)

    from zounds.learn import InstanceScaling, UnitNorm, infinite_streaming_learning_pipeline
    further = ctx.coin()

    @infinite_streaming_learning_pipeline
    class Learning(ff.BaseModel, settings('learning')):
        scaled = ff.PickleFeature(InstanceScaling)
        network = ff.PickleFeature(PyTorchGan, trainer=ff.Var('trainer'), needs=scaled)
        if further:
            normed = ff.PickleFeature(UnitNorm, needs=network)

    ctx.raises(Learning.load_network, 'endless', 'nothing trained', types=(RuntimeError,))
    rounds = ctx.integer(2, 4)
    states, starts = [], []

    def called(**kwargs):
        e = kwargs['epoch']
        if e not in starts:
            if e % checkpoint == 0:
                # the training so far, as far as it has been handed on
                states.append(weights(trainer.network))
            starts.append(e)
            if len(starts) > rounds * checkpoint:
                raise Over()

    first = weights(trainer.network)
    trainer.register_batch_complete_callback(called)
    before = []
    original = trainer.train

    def train(data):
        before.append((weights(trainer.network), np.array(data)))
        return original(data)

    trainer.train = train
    try:
        with quiet():
            Learning.process(dataset=(Document, Document.raw), trainer=trainer, nsamples=ctx.integer(4, 40),
                             dtype=np.float32, feature_filter=lambda x: x, parallel=ctx.coin())
        ctx.fail('endless', 'ended')
    except Over:
        pass
    ctx.eq(starts, list(range(rounds * checkpoint + 1)), 'endless', 'epochs')
    ctx.eq(len(before), rounds + 1, 'endless', 'rounds')
    ctx.eq(different(before[0][0], first), [], 'endless', 'changed before training')
    net = Learning.load_network()
    # the weights at the beginning of the round that was not finished
    got, want = weights(net), before[-1][0]
    ctx.eq(sorted(got), sorted(want), 'endless')
    ctx.eq(different(got, want), [], 'endless', 'another checkpoint')
    ctx.expect(net is not trainer.network, 'endless')
    pipe = Learning().pipeline
    y = ctx.rng.normal(0, 1, (5, 2)).astype(np.float32)
    ctx.eq(len(pipe.processors), 3 if further else 2, 'endless', 'steps')
    with torch.no_grad():
        scaled = pipe[0].op(y)
        scaled = getattr(scaled, 'output_value', scaled)
        want = net.generator(torch.from_numpy(np.array(scaled))).numpy()
        if further:
            want = want / (np.linalg.norm(want.reshape((5, -1)), axis=1).reshape((5,) + (1,) * (want.ndim - 1)) + 1e-12)
    ctx.close(np.asarray(pipe.transform(y).data), want, 'endless', 'transforms', rtol=1e-5, atol=1e-6)
    ctx.count('endless rounds', rounds)
