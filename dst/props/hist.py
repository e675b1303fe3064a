"""Base of the properties decided over random histories of one State."""

from .. import core, world


class HistoryProp(core.Prop):

    weights = world.DEFAULT_WEIGHTS
    types = world.PRIMITIVE
    n_ops = (1, 12)
    conditional = True
    constraints_rate = 0.
    large_rate = .02
    real = ['cgpm.crosscat.state', 'cgpm.crosscat.sampling',
        'cgpm.mixtures.view', 'cgpm.mixtures.dim', 'cgpm.primitives.*',
        'cgpm.regressions.*', 'cgpm.network.*', 'cgpm.utils.*']
    stub = []
    rule = ('one evaluation = one simulated run (random table, random history '
        'of operations, one seed); distinct = distinct event-log digests of '
        'runs that executed at least two operations')

    def prepare(self):
        import cgpm.crosscat.state
        import cgpm.regressions.forest
        import cgpm.regressions.linreg
        from .. import world
        for t in world.PRIMITIVE:
            from cgpm.utils import config
            config.cctype_class(t)

    def gen_init(self, rng, tier):
        if self.constraints_rate and rng.random() < self.constraints_rate:
            from . import p08
            init = world.gen_init(rng, self.types, cols=(2, 5), rows=(2, 7),
                zero_based=True)
            init.pop('Zv', None)
            init.pop('Zrv', None)
            init['Cd'], init['Ci'] = p08.gen_constraints(rng,
                len(init['cols']))
            return init
        if rng.random() < self.large_rate:
            # Few runs over tables of a size at which large row, cluster and
            # block numbers occur.
            return world.gen_init(rng, self.types, cols=(3, 9), rows=(8, 30))
        big = tier == 'thorough' and rng.random() < .3
        return world.gen_init(rng, self.types,
            cols=(1, 6) if big else (1, 4), rows=(2, 12) if big else (2, 7))

    def gen(self, rng, tier):
        plan = dict(init=self.gen_init(rng, tier))
        hi = self.n_ops[1] * (2 if tier == 'thorough'
            and rng.random() < .3 else 1)
        plan['ops'] = world.gen_history(rng, rng.randint(self.n_ops[0], hi),
            self.weights, self.types, missing=rng.choice([0., .2, .5]),
            conditional=self.conditional)
        return plan

    def shrink(self, plan):
        return world.shrink_plan(plan)

    def make(self, plan, ctx):
        return world.World(plan['init'], ctx)

    def execute(self, plan, ctx):
        w = self.make(plan, ctx)
        self.begin(w, plan)
        self.after(w, None, None)
        for op in plan['ops']:
            before = self.before(w, op)
            try:
                r = w.apply(op)
            except world.Skip:
                ctx.log('skip', op['op'])
                continue
            ctx.ops += 1
            ctx.log(op['op'], core_repr(r))
            ctx.probe('op-' + op['op'] + (
                '-' + op['kernel'] if op['op'] == 'kernel' else ''))
            self.after(w, op, before, r)
            fp = world.fingerprint(w.state)
            ctx.state(fp)
            ctx.log('state', fp)
        self.end(w, plan)

    def begin(self, w, plan):
        pass

    def before(self, w, op):
        return None

    def after(self, w, op, before, result=None):
        pass

    def end(self, w, plan):
        pass


def core_repr(r):
    return repr(world.plain(r))[:300]
