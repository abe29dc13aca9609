"""Networks and a trainer for the checks, importable in any process"""
import numpy as np
import torch
from torch import nn


class Net(nn.Module):
    def __init__(self, n, hidden, out, norm=True, activation='tanh', scale=1.0):
        super(Net, self).__init__()
        self.n, self.hidden, self.out = n, hidden, out
        self.norm, self.activation, self.scale = norm, activation, scale
        self.l1 = nn.Linear(n, hidden)
        self.bn = nn.BatchNorm1d(hidden) if norm else None
        self.drop = nn.Dropout(0.5)
        self.l2 = nn.Linear(hidden, out)
        self.register_buffer('offset', torch.zeros(out))

    def forward(self, x):
        x = self.l1(x)
        if self.bn is not None:
            x = self.bn(x)
        x = torch.tanh(x) if self.activation == 'tanh' else torch.relu(x)
        return self.l2(self.drop(x)) * self.scale + self.offset


class AutoEncoder(nn.Module):
    def __init__(self, n, m, norm=False):
        super(AutoEncoder, self).__init__()
        self.n, self.m, self.norm = n, m, norm
        self.encoder = Net(n, 4, m, norm)
        self.decoder = Net(m, 4, n, norm)

    def forward(self, x):
        return self.decoder(self.encoder(x))


class Pair(nn.Module):
    def __init__(self, latent, n):
        super(Pair, self).__init__()
        self.latent, self.n = latent, n
        self.generator = Net(latent, 5, n, False, 'relu', 0.5)
        self.discriminator = Net(n, 3, 1, True)


class Trainer(object):
    """leaves a network whose weights, buffers and running statistics are anything but the initial ones"""

    def __init__(self, network, seed, batch_size):
        self.network, self.seed, self.batch_size = network, seed, batch_size

    def train(self, data):
        if isinstance(data, dict):
            data = data['data']
        gen = torch.Generator().manual_seed(self.seed)
        with torch.no_grad():
            for p in self.network.parameters():
                p += 0.5 * torch.randn(p.shape, generator=gen)
            for name, b in self.network.named_buffers():
                if name.endswith('offset'):
                    b += torch.randn(b.shape, generator=gen)
        self.network.train()
        torch.manual_seed(self.seed)
        for m in self.network.modules():
            if isinstance(m, Net):
                for _ in range(3):
                    m(torch.randn((8, m.n), generator=gen) * 2 + 1)
        return self.network


def layered(rng):
    """a small chain of layers whose parameters say nothing about some of them"""
    torch.manual_seed(int(rng.integers(0, 10 ** 6)))
    return nn.Sequential(nn.Linear(3, 4), nn.Tanh(), nn.Linear(4, 2))


def relayered(net, changed):
    """the same weights in another network, perhaps with another structure"""
    twin = nn.Sequential(nn.Linear(3, 4), nn.ReLU() if changed else nn.Tanh(), nn.Linear(4, 2))
    twin.load_state_dict(net.state_dict())
    return twin
