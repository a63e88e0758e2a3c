"""Module states: programs with functions, classes, imports and data in one namespace, as a session holds them."""
from . import gen_cls, gen_data, gen_fn

IMPORTS = ['import math', 'import os.path as osp', 'from math import sin as sine, pi', 'from collections import OrderedDict, Counter as Cnt', 'import json', 'from json import dumps as jd',
           'from functools import partial, reduce', 'import itertools as it', 'from vf.fx import topfunc, Plain, Color, CONST, cached', 'from vf.fx import Plain as P2, topfunc as tf',
           'from html.entities import html5', 'import numpy as np', 'from numpy import pi as npi, float64', 'from datetime import datetime, timezone', 'from string import ascii_letters, digits as dg',
           'from os import environ', 'from typing import List, TypeVar', 'import vf.probe', 'from vf import fx_hooks as hooks', 'from operator import itemgetter as ig', 'import xml.dom', 'import dill', 'from dill import dumps as dd']
IMPORTS = [i for i in IMPORTS if 'environ' not in i and 'vf.probe' not in i and 'fx_hooks' not in i]
ODD = ['_hidden', '__private', '__dunderish__', 'na\u00efve', 'x' * 60, 'two words', '', 'None_', 'print', '__author__', '0', '\u4e2d']


class Program:
    def __init__(self, r, classes=True, data=True, plain=False):
        self.r = r
        g = gen_fn.Gen(r, globals_write='any', prefix='p')
        src = [g.program(r.choice([0, 1, 2, 4]), None)]
        self.units = list(g.units)
        self.classes = classes and r.random() < .6
        if self.classes:
            c = gen_cls.Gen(r)
            src.append(c.program(r.choice([1, 2])))
            self.units += c.units
        imports = r.sample(IMPORTS, r.randrange(6))
        src[0:0] = imports
        self.imports = imports
        self.vars = ['v%d' % i for i in range(r.randrange(1, 7))]
        for v in self.vars:
            src.append('def get_%s(): return %s' % (v, v))
            src.append('def put_%s(x):\n    global %s\n    %s = x' % (v, v, v))
        src.append('def ordinary(n):\n    return [ordinary(n - 1), total] if n else []\ntotal = 0\ndef bump():\n    global total\n    total += 1\n    return total')
        self.units.append(('ordinary', ['ordinary(2)'], 'recursive'))
        self.units.append(('bump', ['[bump(), bump()]'], 'counter'))
        if r.random() < .15:
            src.append('def __getattr__(n):\n    if n.startswith("lazy_"): return n.upper()\n    raise AttributeError(n)')
        if r.random() < .15:
            src.append('def __dir__(): return ["one"]')
        if r.random() < .2:
            src.append('__all__ = ["total", "bump"]\n__doc__ = "module doc"\n__version__ = "1.2"')
        if r.random() < .2:
            src.append('notes: "int" = 3')
        self.src = '\n'.join(src) + '\n'
        self.dataseed = r.random()
        self.size = r.choice([1, 5, 20]) if data else 0
        self.odd = r.sample(ODD, r.randrange(4))
        self.selfref = r.choice([0, 0, 1, 2])

    def attach(self, d, module):
        """puts the data into a namespace that ran the source; the same data for every namespace"""
        import random
        q = random.Random(self.dataseed)
        root = [0]
        if self.size:
            root, kinds = gen_data.build(q, self.size)
        pool = list(root) if isinstance(root, (list, tuple)) and type(root) in (list, tuple) and root else [root]
        for v in self.vars:
            d[v] = q.choice(pool) if q.random() < .8 else q.choice([1, 'txt', None, True, (), 3.5, [1, 2], len, int])
        if q.random() < .3:
            d['alias'] = d[q.choice(self.vars)]
        for o in self.odd:
            d[o] = [o, d[q.choice(self.vars)]]
        if self.selfref:
            d['me'] = module
            d['space'] = d
            if self.selfref == 2:
                d['deep'] = {'mod': [module], 'dict': (d,)}
        d.pop('fx', None)       # a module that is not part of the library would travel with its state
        return self.vars + self.odd
