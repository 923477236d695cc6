"""Stand-ins for the loom and distributions packages.  A project directory
holds what the backend was given; inference writes a sample chosen by the
harness, with the rows in no particular order."""

import csv
import gzip
import io
import json
import os
import sys
import types

import numpy as np

KINDS = {'boolean': 'bb', 'categorical': 'dd', 'unbounded_categorical': 'dpd', 'count': 'gp', 'real': 'nich'}
LOG = []            # [what, ...] in order
ANSWER = [None]     # function of (project, sample) -> (kinds of feature positions, row partitions)


def write(path, x):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with gzip.open(path, 'wb') as f:
        f.write(json.dumps(x).encode())


def read(path):
    with gzip.open(path, 'rb') as f:
        return json.loads(f.read().decode())


def force_ascii(source, target):
    LOG.append(['cleanse'])
    with open(source, 'rb') as f, gzip.open(target, 'wb') as g:
        g.write(f.read())


def transform(results, schema_file, rows_dir):
    LOG.append(['transform'])
    with open(schema_file) as f:
        schema = list(csv.reader(f))
    assert schema[0] == ['Feature Name', 'Type'], schema[0]
    files = sorted(os.listdir(rows_dir))
    assert len(files) == 1, files
    with gzip.open(os.path.join(rows_dir, files[0]), 'rb') as f:
        rows = list(csv.reader(io.StringIO(f.read().decode('ascii'))))
    write(os.path.join(results, 'transformed.gz'), {'schema': schema[1:], 'head': rows[0], 'rows': rows[1:]})


def ingest(results):
    LOG.append(['ingest'])
    t = read(os.path.join(results, 'transformed.gz'))
    types = dict(t['schema'])
    assert sorted(types) == sorted(t['head']) and len(t['schema']) == len(t['head'])
    order = sorted(t['head'], key=lambda h: (KINDS[types[h]], h[::-1]))
    write(os.path.join(results, 'ingest', 'encoding.json.gz'), [{'name': h, 'model': KINDS[types[h]]} for h in order])
    t['order'] = order
    write(os.path.join(results, 'dataset.gz'), t)


def dataset(results):
    return read(os.path.join(results, 'dataset.gz'))


def sample(results, i):
    kinds, parts = ANSWER[0](results, i)
    d = os.path.join(results, 'samples', 'sample.%d' % i)
    write(os.path.join(d, 'model.pb.gz'), [list(k) for k in kinds])
    n = len(parts[0])
    rows = np.random.RandomState(n * 31 + i).permutation(n)
    write(os.path.join(d, 'assign.pbs.gz'), [[int(r), [p[r] for p in parts]] for r in rows])


def infer_one(results, seed=0, config=None, **kw):
    LOG.append(['infer', 1, int(seed), passes(config)])
    sample(results, seed)


def infer(results, sample_count=1, config=None, **kw):
    LOG.append(['infer', int(sample_count), -1, passes(config)])
    for i in range(sample_count):
        sample(results, i)


def passes(config):
    n = ((config or {}).get('schedule') or {}).get('extra_passes')
    return -1 if n is None else int(n)


class Kind(object):
    def __init__(self, ids):
        self.featureids = ids


class CrossCat(object):
    def ParseFromString(self, text):
        self.kinds = [Kind(k) for k in json.loads(text.decode())]


class Assignment(object):
    def __init__(self, rowid, groups):
        self.rowid, self.groups = rowid, groups

    def groupids(self, k):
        return self.groups[k]


def install():
    names = ['loom', 'loom.cleanse', 'loom.tasks', 'loom.schema_pb2', 'loom.cFormat', 'distributions',
             'distributions.io', 'distributions.io.stream']
    mods = {n: types.ModuleType(n) for n in names}
    for n, m in mods.items():
        m.__path__ = []
        if '.' in n:
            setattr(mods[n.rpartition('.')[0]], n.rpartition('.')[2], m)
    mods['loom.cleanse'].force_ascii = force_ascii
    for f in (transform, ingest, infer, infer_one):
        setattr(mods['loom.tasks'], f.__name__, f)
    mods['loom.schema_pb2'].CrossCat = CrossCat
    mods['loom.cFormat'].assignment_stream_load = lambda path: [Assignment(*a) for a in read(path)]
    mods['distributions.io.stream'].json_load = read
    mods['distributions.io.stream'].open_compressed = lambda path, mode='rb': gzip.open(path, mode)
    sys.modules.update(mods)
    from cgpm.crosscat import loomcat

    def text(path, mode='r', *a, **kw):     # csv files are bytes in Python 2
        if path.endswith('.csv') and 'b' in mode:
            return open(path, mode.replace('b', ''), newline='')
        return open(path, mode, *a, **kw)
    loomcat.open = text
    return loomcat
