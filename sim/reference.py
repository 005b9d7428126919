"""Executable reference models (plain numpy, independent of the trainer)."""
import numpy as np

import zoo
from brainstorm.handlers import NumpyHandler


class RefMod(object):
    """Reference of one value/gradient modifier for one view."""

    def __init__(self, m, shape):
        self.m = m
        self.frozen = None
        if m[0] == 'mask':
            rs = np.random.RandomState(m[1])
            self.mask = (rs.random_sample(shape) < 0.6).astype(float)
        if m[0] == 'freezeto':
            rs = np.random.RandomState(m[1])
            self.frozen = rs.standard_normal(shape) * 0.3

    def __call__(self, x, p=None):
        k = self.m[0]
        if k == 'clip':
            return np.clip(x, self.m[1], self.m[2])
        if k == 'norm':
            if x.ndim < 2:
                return x
            mat = x.reshape(x.shape[0], -1)
            n = np.sqrt((mat * mat).sum(1, keepdims=True))
            with np.errstate(all='ignore'):
                scaled = mat * np.where(n > self.m[1], self.m[1] / n, 1.)
            return scaled.reshape(x.shape)
        if k == 'mask':
            return x * self.mask
        if k in ('freeze', 'freezeto'):
            if self.frozen is None:
                self.frozen = x.copy()
            return self.frozen.copy()
        if k == 'l1':
            return x + self.m[1] * np.sign(p)
        if k == 'l2':
            return x + self.m[1] * p
        raise KeyError(k)


class RefTrain(object):
    """Training by the documented rules.  Gradients come from a network of its
    own that is only used for single forward/backward passes, without
    modifiers; everything else is numpy."""

    def __init__(self, spec, seed, wmods=(), gmods=(), init_kind=None):
        self.net = zoo.build(spec, seed=seed, init_kind=init_kind)
        self.lv = zoo.param_views(self.net)
        self.set_mods(wmods, gmods)
        self.vel = None
        self.loss = None

    def set_mods(self, wmods, gmods):
        sh = {(l, v): self.net.buffer[l].parameters[v].shape
              for l, v in self.lv}
        self.wm = {(l, v): [RefMod(m, sh[(l, v)]) for m in ms]
                   for l, v, ms in wmods}
        self.gm = {(l, v): [RefMod(m, sh[(l, v)]) for m in ms]
                   for l, v, ms in gmods}

    def get(self, what='parameters'):
        return {k: np.array(self.net.get('%s.%s.%s' % (k[0], what, k[1])),
                            dtype=float) for k in self.lv}

    def put(self, p):
        for (l, v), a in p.items():
            self.net.handler.set_from_numpy(self.net.buffer[l].parameters[v],
                                            np.array(a))

    def start(self):
        self.vel = None

    def _pass(self, data):
        net = self.net
        net.provide_external_data(data)
        net.forward_pass(training_pass=True)
        self.loss = dict(net.get_loss_values())
        net.backward_pass()
        p = self.get()
        g = self.get('gradients')
        for k, ms in self.gm.items():
            for m in ms:
                g[k] = m(g[k], p[k])
        return p, g

    def step(self, st, data):
        """st: [kind, lr, momentum, scale]"""
        k = st[0]
        if k == 'fwd':
            self.net.provide_external_data(data)
            self.net.forward_pass(training_pass=bool(st[1]))
            self.loss = dict(self.net.get_loss_values())
            p = self.get()
        elif k == 'sgd':
            p, g = self._pass(data)
            for q in p:
                p[q] = p[q] - st[1] * g[q]
        else:
            lr, mom = st[1], st[2]
            if st[3]:
                lr = lr * (1 - mom)
            if self.vel is None:
                self.vel = {q: np.zeros_like(a) for q, a in
                            self.get().items()}
            if k == 'mom':
                p, g = self._pass(data)
                for q in p:
                    self.vel[q] = mom * self.vel[q] - lr * g[q]
                    p[q] = p[q] + self.vel[q]
            else:
                p = self.get()
                self.put({q: p[q] + mom * self.vel[q] for q in p})
                p, g = self._pass(data)
                for q in p:
                    self.vel[q] = mom * self.vel[q] - lr * g[q]
                    p[q] = p[q] - lr * g[q]
        for q, ms in self.wm.items():
            for m in ms:
                p[q] = m(p[q])
        self.put(p)
        return p

    def flat(self):
        return self.net.get('parameters')
