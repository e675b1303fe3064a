"""A simulated Venture interpreter (venture is not installed).

It speaks the part of the `ripl` interface that the VentureScript components
use.  A program is a JSON description of a small model: per row a latent class,
per output a table over the class, shifted by the inputs.  Applications are
memoised and live as long as a directive refers to them; inference is exact
Gibbs.  The script of a run makes the k-th call fail.
"""

import json
import math
import random
import sys
import types
import pickle


class RiplError(Exception):
    pass


class World(object):
    """What all interpreters of one simulated run share."""

    def __init__(self):
        self.reset(0)

    def reset(self, entropy):
        self.entropy = random.Random(entropy)   # unseeded interpreters
        self.countdown = None                   # calls until one fails
        self.failed = 0
        self.made = []


WORLD = World()
FAILING = ('evaluate', 'predict', 'infer', 'observe', 'sample', 'saves',
    'assume', 'execute_program')


def fails(f):
    def g(self, *a, **k):
        if WORLD.countdown is not None and f.__name__ in FAILING:
            WORLD.countdown -= 1
            if WORLD.countdown < 0:
                WORLD.countdown = None
                WORLD.failed += 1
                raise RiplError('simulated failure of %s' % (f.__name__,))
        return f(self, *a, **k)
    g.__name__ = f.__name__
    return g


def tokens(s):
    return s.replace('(', ' ( ').replace(')', ' ) ').split()


class Ripl(object):

    def __init__(self, seed=None):
        self.seed = seed
        self.rng = random.Random(
            WORLD.entropy.random() if seed is None else int(seed))
        self.program = None
        self.built = False
        self.mode = 'venture_script'
        self.plugins = []
        self.directives = {}    # label -> ('observe' | 'predict', address)
        self.values = {}        # address -> value, of live applications
        self.latent = {}        # row -> class, of rows with live applications
        self.given = {}         # address -> observed value
        self.exprs = {}         # label -> expression of an assume
        WORLD.made.append(self)

    # -- The model ---------------------------------------------------------
    def weights(self, row, k):
        """log joint of class k and the observed cells of a row."""
        lp = math.log(self.program['latent'][k])
        for (r, i, ins), v in sorted(self.given.items()):
            if r == row:
                p = self.cell(i, k, ins).get(v, 0.)
                if p <= 0.:
                    return -float('inf')
                lp += math.log(p)
        return lp

    def cell(self, i, k, ins):
        return law(self.program, i, k, ins)

    def draw(self, probs):
        u = self.rng.random() * sum(p for _v, p in probs)
        for v, p in probs:
            u -= p
            if u < 0:
                return v
        return [v for v, p in probs if p > 0][-1]

    def klass(self, row):
        if row not in self.latent:
            self.latent[row] = self.draw(list(enumerate(
                self.program['latent'])))
        return self.latent[row]

    def gibbs(self, row):
        if row not in self.latent:
            return
        K = range(len(self.program['latent']))
        ws = [self.weights(row, k) for k in K]
        m = max(ws)
        self.latent[row] = self.draw([(k, math.exp(w - m))
            for k, w in zip(K, ws)])
        for a in sorted(self.values):
            if a[0] == row and a not in self.given:
                self.values[a] = self.draw(sorted(self.cell(a[1],
                    self.latent[row], a[2]).items()))

    def apply(self, address):
        if address in self.given:
            return self.given[address]
        if address not in self.values:
            self.values[address] = self.draw(sorted(self.cell(address[1],
                self.klass(address[0]), address[2]).items()))
        return self.values[address]

    def collect(self):
        live = set(a for _t, a in self.directives.values())
        self.values = {a: v for a, v in self.values.items() if a in live}
        rows = set(a[0] for a in live)
        self.latent = {r: k for r, k in self.latent.items() if r in rows}

    # -- The interface -------------------------------------------------------
    def set_mode(self, mode):
        assert mode in ('church_prime', 'venture_script')
        self.mode = mode

    def load_plugin(self, name):
        self.plugins.append(name)

    @fails
    def execute_program(self, source):
        if source.startswith('{'):
            self.program = json.loads(source)
        elif source.startswith('transition '):
            self.transition(int(source.split()[1]))
        elif '~>' not in source and not source.startswith('assume'):
            raise RiplError('parse error: %s' % (source,))

    def transition(self, n):
        for _ in range(n):
            for row in sorted(self.latent):
                self.gibbs(row)

    @fails
    def evaluate(self, expr):
        t = tokens(expr)
        if t[1] == 'size' and t[2] == 'inputs':
            return float(len(self.program['inputs']))
        if t[1] == 'size' and t[2] == 'observers':
            return float(self.program.get('observers',
                len(self.program['tables'])))
        if t[1:] == ['make_cgpm', ')']:
            self.built = True
            return None
        # ((lookup observers i) row inputs... value 'label)
        if t[:4] == ['(', '(', 'lookup', 'observers']:
            args = t[6:-1]
            n = len(self.program['inputs'])
            if len(args) != n + 3:
                raise RiplError('wrong number of arguments: %s' % (expr,))
            row, ins = int(args[0]), tuple(float(x) for x in args[1:1 + n])
            value, label = float(args[-2]), args[-1]
            if not label.startswith("'"):
                raise RiplError('unquoted label: %s' % (label,))
            self.put(label[1:], 'observe', (row, int(float(t[4])), ins))
            address = self.directives[label[1:]][1]
            if address in self.given:
                del self.directives[label[1:]]
                raise RiplError('observed already: %s' % (expr,))
            self.klass(row)
            if not any(self.cell(address[1], k, ins).get(value, 0.) > 0.
                    for k in range(len(self.program['latent']))):
                del self.directives[label[1:]]
                self.collect()
                raise RiplError('impossible observation: %s' % (expr,))
            self.given[address] = value
            self.values[address] = value
            return None
        raise RiplError('unknown expression: %s' % (expr,))

    def put(self, label, kind, address):
        if label is None:
            raise RiplError('no label')
        if label in self.directives:
            raise RiplError('label already in use: %s' % (label,))
        self.directives[label] = (kind, address)

    @fails
    def sample(self, expr):
        if expr == 'simulators':
            if not self.built:
                raise RiplError('simulators: unbound')
            return list(range(len(self.program['tables'])))
        name, args = expr.split('(', 1)
        return self.inline(name, args.rstrip(')'))[0]

    @fails
    def predict(self, expr, label=None):
        t = tokens(expr)
        n = len(self.program['inputs'])
        assert t[:4] == ['(', '(', 'lookup', 'simulators'], expr
        args = t[6:-1]
        if len(args) != n + 1:
            raise RiplError('wrong number of arguments: %s' % (expr,))
        address = (int(args[0]), int(float(t[4])),
            tuple(float(x) for x in args[1:]))
        self.put(label, 'predict', address)
        return self.apply(address)

    @fails
    def infer(self, program):
        t = tokens(program)
        if t[1] == 'resimulation_mh':
            # ( resimulation_mh ( atom row ) all steps )
            self.gibbs(int(t[4]))
        elif t[1] == 'transition':
            self.transition(int(t[2]))
        else:
            raise RiplError('unknown inference program: %s' % (program,))

    def forget(self, label):
        if label in self.exprs:
            del self.exprs[label]
            return
        if label not in self.directives:
            raise RiplError('no such label: %s' % (label,))
        kind, address = self.directives.pop(label)
        if kind == 'observe':
            self.given.pop(address, None)
        self.collect()

    @fails
    def saves(self):
        return pickle.dumps((self.program, self.built, self.directives,
            self.values, self.latent, self.given))

    def loads(self, text):
        (self.program, self.built, self.directives, self.values, self.latent,
            self.given) = pickle.loads(text)

    # -- Inline expressions ----------------------------------------------------
    @fails
    def assume(self, name, expr, label=None):
        if label in self.exprs or any(n == name for n, _e in
                self.exprs.values()):
            raise RiplError('already assumed: %s' % (name,))
        self.exprs[label] = (name, expr)

    @fails
    def observe(self, expr, value, label=None):
        name, args = expr.split('(', 1)
        probs = self.inline(name.strip(), args.rstrip(')'))[1]
        self.put(label, 'observe', (0, 0, (float(value),)))
        p = probs.get(float(value), 0.)
        return [math.log(p) if p > 0 else -float('inf')]

    def inline(self, name, args):
        found = [e for n, e in self.exprs.values() if n == name]
        if not found:
            raise RiplError('unbound: %s' % (name,))
        head, body = found[0].split('~>')
        names = [a for a in head.strip().strip('()').split(',') if a.strip()]
        ins = [float(a) for a in args.split(',') if a.strip()]
        if len(names) != len(ins):
            raise RiplError('wrong number of arguments: %s' % (args,))
        table = json.loads(body.strip().strip('{}').strip())
        probs = dict(shift(table, ins))
        return self.draw(sorted(probs.items())), probs

    def observations(self):
        """The observed cells: {(row, output position): (inputs, value)}."""
        return {(a[0], a[1]): (a[2], v) for a, v in self.given.items()}

    def strays(self):
        return sorted(l for l, (kind, _a) in self.directives.items()
            if kind == 'predict') + sorted(self.exprs)


def shift(table, ins):
    n = len(table)
    s = int(sum((2 * j + 1) * x for j, x in enumerate(ins)))
    return [(float((v + s) % n), p) for v, p in enumerate(table)]


def law(program, i, k, ins):
    return dict(shift(program['tables'][i][k], ins))


def install():
    if 'venture' in sys.modules:
        return
    top = types.ModuleType('venture')
    sc = types.ModuleType('venture.shortcuts')
    top.__path__ = []

    def make_lite_ripl(seed=None):
        return Ripl(seed)
    sc.make_lite_ripl = make_lite_ripl
    top.shortcuts = sc
    sys.modules.update({'venture': top, 'venture.shortcuts': sc})
