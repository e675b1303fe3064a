"""Simulated external inference engines (crosscat's LocalEngine, loom).

The real engines are C++ programs that are not installed.  The stubs speak the
same interface, record what they were handed and return the structure the
simulation scripts for the run, or fail the way the script says.
"""

import csv
import gzip
import io
import json
import os
import shutil
import sys
import types


class Script(object):
    """What the next call of the engine does."""

    def __init__(self):
        self.calls = []
        self.result = None      # callable(call) -> result, may raise

    def reset(self, result):
        self.calls = []
        self.result = result


CROSSCAT = Script()


class LocalEngine(object):

    def __init__(self, seed=None):
        self.seed = seed

    def analyze(self, M_c, T, X_L, X_D, seed, kernel_list=(), n_steps=1,
            c=(), r=(), max_iterations=-1, max_time=-1, do_diagnostics=False,
            diagnostics_every_N=1, ROW_CRP_ALPHA_GRID=(),
            COLUMN_CRP_ALPHA_GRID=(), S_GRID=(), MU_GRID=(), N_GRID=31,
            do_timing=False, CT_KERNEL=0, progress=None):
        call = dict(M_c=M_c, T=T, X_L=X_L, X_D=X_D, seed=seed,
            kernel_list=kernel_list, n_steps=n_steps, c=c, r=r,
            max_time=max_time, do_diagnostics=do_diagnostics,
            diagnostics_every_N=diagnostics_every_N, progress=progress)
        CROSSCAT.calls.append(call)
        return CROSSCAT.result(call)


def get_scc_from_tuples(pairs):
    """Column -> tuple of the columns it is declared independent of."""
    out = {}
    for a, b in pairs:
        out.setdefault(a, []).append(b)
        out.setdefault(b, []).append(a)
    return {k: tuple(v) for k, v in out.items()}


def install_crosscat():
    if 'crosscat' in sys.modules:
        return
    top = types.ModuleType('crosscat')
    le = types.ModuleType('crosscat.LocalEngine')
    le.LocalEngine = LocalEngine
    ut = types.ModuleType('crosscat.utils')
    gu = types.ModuleType('crosscat.utils.general_utils')
    gu.get_scc_from_tuples = get_scc_from_tuples
    top.__path__ = ut.__path__ = []
    top.LocalEngine, top.utils, ut.general_utils = le, ut, gu
    sys.modules.update({'crosscat': top, 'crosscat.LocalEngine': le,
        'crosscat.utils': ut, 'crosscat.utils.general_utils': gu})


def crosscat_structure(state_outputs, Zv, Zr, alpha, view_alphas, call):
    """(X_L, X_D) in crosscat's format.  Zv: column -> block index (0-based,
    dense); Zr: block -> list of cluster per row."""
    n = len(view_alphas)
    X_L = {
        'column_hypers': call['X_L']['column_hypers'],
        'column_partition': {
            'assignments': [Zv[c] for c in state_outputs],
            'counts': [sum(1 for c in state_outputs if Zv[c] == v)
                for v in range(n)],
            'hypers': {'alpha': alpha}},
        'view_state': [{
            'column_component_suffstats': [],
            'column_names': ['c%d' % c for c in state_outputs if Zv[c] == v],
            'row_partition_model': {
                'counts': [Zr[v].count(k) for k in sorted(set(Zr[v]))],
                'hypers': {'alpha': view_alphas[v]}}}
            for v in range(n)],
        'col_ensure': call['X_L'].get('col_ensure', {}),
    }
    return X_L, [list(Zr[v]) for v in range(n)]


# --------------------------------------------------------------------------
# loom: files in a project directory, written by separate programs.

LOOM = Script()
KIND_OF = {'boolean': 'bb', 'categorical': 'dd',
    'unbounded_categorical': 'dpd', 'count': 'gp', 'real': 'nich'}


class LoomError(Exception):
    pass


def _dump(path, x):
    d = os.path.dirname(path)
    if not os.path.isdir(d):
        os.makedirs(d)
    with gzip.open(path, 'wb') as f:
        f.write(json.dumps(x).encode('utf-8'))


def _load(path):
    with gzip.open(path, 'rb') as f:
        return json.loads(f.read().decode('utf-8'))


def _stage(name):
    """The script may let a program fail."""
    hook = getattr(LOOM, 'stage', None)
    if hook is not None:
        hook(name)


def force_ascii(source, target):
    _stage('cleanse')
    with open(source, 'rb') as f:
        text = f.read()
    with gzip.open(target, 'wb') as f:
        f.write(text)


def loom_transform(name, schema_csv, rows_csv):
    _stage('transform')
    with open(schema_csv) as f:
        schema = [r for r in csv.reader(f)]
    if schema[0] != ['Feature Name', 'Type']:
        raise LoomError('schema header %r' % (schema[0],))
    rows = []
    for part in sorted(os.listdir(rows_csv)):
        with gzip.open(os.path.join(rows_csv, part), 'rb') as f:
            rows.extend(csv.reader(io.StringIO(f.read().decode('ascii'))))
    types_ = dict(schema[1:])
    for t in types_.values():
        if t not in KIND_OF:
            raise LoomError('type %r' % (t,))
    if sorted(rows[0]) != sorted(types_):
        raise LoomError('columns %r, schema %r' % (rows[0], types_))
    _dump(os.path.join(name, 'ingest', 'transformed.json.gz'),
        dict(types=types_, header=rows[0], rows=rows[1:]))


def loom_ingest(name, *a, **k):
    _stage('ingest')
    t = _load(os.path.join(name, 'ingest', 'transformed.json.gz'))
    # Loom orders features by kind, then by name.
    names = sorted(t['types'], key=lambda c: (KIND_OF[t['types'][c]], c))
    _dump(os.path.join(name, 'ingest', 'encoding.json.gz'),
        [dict(name=c, model=KIND_OF[t['types'][c]]) for c in names])
    _dump(os.path.join(name, 'ingest', 'rows.json.gz'),
        [[r[t['header'].index(c)] for c in names] for r in t['rows']])


def _infer_sample(name, seed, config):
    passes = config['schedule']['extra_passes']
    if isinstance(passes, bool) or not isinstance(passes, (int, float)):
        raise TypeError('extra_passes: %r' % (passes,))
    features = _load(os.path.join(name, 'ingest', 'encoding.json.gz'))
    rows = _load(os.path.join(name, 'ingest', 'rows.json.gz'))
    call = dict(path=name, seed=seed, passes=passes,
        features=[f['name'] for f in features],
        models=[f['model'] for f in features], rows=rows)
    LOOM.calls.append(call)
    kinds, assign, fault = LOOM.result(call)
    d = os.path.join(name, 'samples', 'sample.%d' % (seed,))
    if fault == 'no-sample':
        if os.path.isdir(d):
            shutil.rmtree(d)
        return
    _dump(os.path.join(d, 'model.pb.gz'), kinds)
    _dump(os.path.join(d, 'assign.pbs.gz'), assign)
    if fault in ('torn-model', 'torn-assign'):
        p = os.path.join(d, 'model.pb.gz' if fault == 'torn-model'
            else 'assign.pbs.gz')
        with open(p, 'rb') as f:
            data = f.read()
        with open(p, 'wb') as f:
            f.write(data[:len(data) // 2])


def infer_one(name, seed=0, config=None, debug=False):
    _stage('infer')
    _infer_sample(name, seed, config)


def infer(name, sample_count=10, config=None, debug=False):
    _stage('infer')
    for s in range(sample_count):
        _infer_sample(name, s, config)


class _Kind(object):

    def __init__(self, ids):
        self.featureids = ids


class _CrossCat(object):

    def __init__(self):
        self.kinds = []

    def ParseFromString(self, data):
        self.kinds = [_Kind(k) for k in json.loads(data.decode('utf-8'))]


class _Assignment(object):

    def __init__(self, rowid, groups):
        self.rowid, self._groups = rowid, groups

    def groupids(self, k):
        return self._groups[k]


def _assignments(path):
    for rowid, groups in _load(path):
        yield _Assignment(rowid, groups)


def install_loom():
    if 'loom' in sys.modules:
        return
    def module(name, **kw):
        m = types.ModuleType(name)
        m.__path__ = []
        m.__dict__.update(kw)
        sys.modules[name] = m
        head, _, tail = name.rpartition('.')
        if head:
            setattr(sys.modules[head], tail, m)
        return m
    module('loom')
    module('loom.cleanse', force_ascii=force_ascii)
    module('loom.tasks', transform=loom_transform, ingest=loom_ingest,
        infer=infer, infer_one=infer_one)
    module('loom.schema_pb2', CrossCat=_CrossCat)
    module('loom.cFormat', assignment_stream_load=_assignments)
    module('distributions')
    module('distributions.io')
    module('distributions.io.stream', json_load=_load,
        open_compressed=lambda p, mode='rb': gzip.open(p, mode))
