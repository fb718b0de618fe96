"""Replays the transitions of spec/UffStore.tla on real files and UFF objects."""
import collections
import json

import numpy as np

import foreign
import tlc
from core import Machinery

CFG = ('SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nVIEW View\nACTION_CONSTRAINT Edge\n'
       'CONSTANTS Objs={1,2} Kinds=%s MaxBlocks=%d MaxItems=%d ReadIdx=%s\n')
MODEL_CFG = ('SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS TypeOK OwnView PickUp\nPROPERTIES Writes OneByOne ReadPure Others\n'
             'CONSTANTS Objs={1,2} Kinds=%s MaxBlocks=%d MaxItems=%d ReadIdx=%s\n')


def graph(ctx, kinds, blocks, items, idx):
    out, info = tlc.run('UffStoreGen', CFG % (kinds, blocks, items, idx), ctx.scratch, workers=1)
    if info['rc'] != 0:
        raise Machinery('UffStoreGen: ' + out[-2000:])
    ctx.states += info['distinct']
    ctx.transitions += info['generated']
    ctx.models.append({k: info.get(k) for k in ('module', 'generated', 'distinct', 'wall')})
    adj = collections.defaultdict(list)
    seen = set()
    for e in tlc.lines(out, 'EDGE'):
        s, l, t = (json.dumps(e[k], sort_keys=True) for k in 'slt')
        if (s, l) not in seen:
            seen.add((s, l))
            adj[s].append((l, t))
    init = json.dumps({'d': {'ex': False, 'bl': []}, 'o': [{'st': False, 'bl': []}] * 2}, sort_keys=True)
    for s in adj:
        adj[s].sort()
    return init, adj


def walks(init, adj, want, rng, length):
    """walks from the initial state that together take every wanted edge"""
    todo = {s: [e for e in adj[s] if want(json.loads(e[0]))] for s in adj}
    for s in todo:
        rng.shuffle(todo[s])
    left = sum(len(v) for v in todo.values())
    res = []
    while left:
        s, w = init, []
        while len(w) < length and left:
            if not todo[s]:
                # shortest way to a state with edges left
                prev, q, goal = {s: None}, collections.deque([s]), None
                while q:
                    x = q.popleft()
                    if todo[x]:
                        goal = x
                        break
                    for l, t in adj[x]:
                        if t not in prev:
                            prev[t] = (x, l)
                            q.append(t)
                if goal is None:
                    break
                path = []
                while prev[goal] is not None:
                    goal, l = prev[goal]
                    path.append(l)
                for l in reversed(path):
                    w.append(json.loads(l))
                    s = next(t for m, t in adj[s] if m == l)
                if len(w) >= length and w[:-len(path)]:
                    break
            l, t = todo[s].pop()
            left -= 1
            w.append(json.loads(l))
            s = t
        res.append(w)
    return res


class Concrete:
    """Concrete operations for the abstract ones of a walk."""

    def __init__(self, ctx, g, shapes, pool):
        self.g, self.shapes, self.pool, self.ctx = g, shapes, pool, ctx

    def shape(self):
        return self.g.choice(self.shapes[self.g.choice(sorted(self.shapes))])

    def ok(self):
        return self.g.make(self.shape())

    def skip(self):
        return {'type': self.g.choice(foreign.UNSUP), 'id1': 'x', 'data': np.zeros(2)} if self.g.flag() else {'type': self.g.choice(foreign.UNSUP)}

    def bad(self):
        """(data-set, is it unwritable for another reason than a missing key)"""
        g = self.g
        p = g.r.random()
        if p < .08:
            return {}, False
        if p < .16:
            return {'data': np.zeros(3), 'x': np.arange(3)}, False
        if p < .26:
            d = g.make(g.choice(self.shapes['58']))
            d['func_type'] = g.choice([5, 7, 8, 10, 12, -1])
            return d, False
        if p < .36:
            d = g.make(g.choice(self.shapes['55']))
            d['analysis_type'] = g.choice([0, 1, 4, 6, 9, -1])
            return d, False
        if p < .65:
            sh = self.shape()
            d = g.make(sh, 'all')
            return unwritable(g, d)
        while True:
            t = g.choice([t for t in self.shapes if t not in ('2400', '2412', '2429')])
            d = g.make(g.choice(self.shapes[t]))
            req = required(t, d)
            if req:
                for k in g.r.sample(req, g.r.randint(1, min(2, len(req)))):
                    del d[k]
                return d, False

    def items(self, classes):
        ds, uw, fd = [], [], True
        for k, c in enumerate(classes):
            if c == 'ok':
                ds.append(self.ok())
            elif c == 'skip':
                ds.append(self.skip())
            else:
                d, u = self.bad()
                ds.append(d)
                if u:
                    uw.append(k)
        fd = all(d.get('ord_data_type') is None for d in ds) or self.g.flag(.7)
        if not fd:
            for d in ds:
                if d.get('type') == 58:
                    d.setdefault('ord_data_type', self.g.choice([2, 4, 5, 6]))
        return ds, uw, fd

    def run(self, t, walk):
        g = self.g
        names = {1: 'a', 2: 'b'}
        t.new('a')
        t.new('b')
        for op in walk:
            o = names.get(op.get('o'))
            k = op['op']
            if k == 'new':
                t.new(o)
            elif k == 'refresh':
                t.refresh(o)
            elif k == 'query':
                t.query(o)
            elif k == 'unknown':
                ds, uw, fd = self.items([i['cls'] for i in op['items']])
                t.write(o, ds, mode=g.choice(['append', 'a', '', 'w', 'over', 'overwrit', 'added', 'add ', ' overwrite', 'update', 'replace', '+', 'wb', 'none']),
                        fd=fd, uw=uw, bare=g.flag() if len(ds) == 1 else None)
            elif k == 'write':
                ds, uw, fd = self.items([i['cls'] for i in op['items']])
                mode = 'overwrite' if op['over'] else 'add'
                if len(ds) > 1 and not uw and all(i['cls'] == 'ok' for i in op['items']) and g.flag(.3):
                    ds[-1] = ds[0]          # the same dictionary twice
                if g.flag(.2):
                    mode = mode.capitalize() if g.flag() else mode.upper()
                bare = g.flag() if len(ds) == 1 else None
                t.write(o, ds, mode=mode, fd=fd, uw=uw, bare=bare, spoil=g.flag())
            elif k == 'read':
                s = op['sel']
                ho = g.flag(.25)
                if s['k'] == 'all':
                    t.read(o, None, ho)
                elif s['k'] == 'one':
                    t.read(o, self.ix(s['ix'][0]), ho)
                else:
                    t.read(o, [self.ix(i) for i in s['ix']], ho)
            elif k == 'put':
                bl = [g.choice(self.pool) for _ in op['bl']]
                content = b''.join(b[0] for b in bl)
                if g.flag(.4):
                    # no end of the last line
                    content = content[:-2] if content.endswith(b'\r\n') else content[:-1]
                t.put(content, [b[1] for b in bl], unseen=g.flag(.3))
            elif k == 'del':
                t.delete()
            else:
                raise Machinery('operation ' + k)
            if k in ('write', 'unknown', 'put', 'del', 'refresh', 'new') and g.flag(.3):
                p = g.r.random()
                if p < .5 and o:
                    t.query(o)
                elif p < .75:
                    t.read('c', None) if 'c' in t.objs else t.new('c')
                else:
                    t.new('c')
                    t.query('c')
            if g.flag(.04):
                # it may have looked at the file
                t.odd('a', g)
                t.refresh('a')
        if t.ev[-1]['op'] in ('write', 'put'):
            t.new('c')
            t.query('c')
            t.read('c')

    def ix(self, i):
        """the model's indices are small; out of range ones also as negative numbers"""
        return -1 if i >= 2 and self.g.flag(.3) else i


REQ = {'15': ['node_nums', 'x', 'y', 'z'], '18': ['cs_num', 'ref_cs_num', 'ref_o', 'x_point', 'xz_point'],
       '55': ['analysis_type', 'data_ch', 'spec_data_type', 'load_case', 'node_nums', 'r1', 'r2', 'r3'],
       '58': ['func_type', 'rsp_node', 'rsp_dir', 'ref_node', 'ref_dir', 'data', 'x', 'orddenom_spec_data_type'],
       '82': ['trace_num', 'nodes'], '151': ['model_name', 'description', 'db_app', 'program'],
       '164': ['units_code', 'length', 'force', 'temp', 'temp_offset'],
       '1858': ['record_num', 'octave_format', 'weighting_type', 'sampling_type', 'z_rpm_value', 'user_value_1', 'response_direction',
                'reference_direction'],
       '2411': ['node_nums', 'def_cs', 'disp_cs', 'color', 'x', 'y', 'z'],
       '2414': ['analysis_dataset_label', 'analysis_dataset_name', 'dataset_location', 'id1', 'model_type', 'analysis_type', 'data_type'],
       '2420': ['CS_sys_labels', 'CS_names', 'CS_matrices'], '2467': ['groups']}


def required(t, d):
    """required fields that d has; per-node values are not looked at when there are no nodes"""
    no = t in ('15', '2411', '55', '2414') and 'node_nums' in d and len(d['node_nums']) == 0
    return [k for k in REQ[t] if k in d and not (no and k in ('x', 'y', 'z', 'r2', 'r3', 'def_cs', 'disp_cs', 'color'))]


FREE = ('type', 'binary', 'abscissa_spacing', 'analysis_type', 'func_type', 'ord_data_type', 'dataset_location', 'date_db_written', 'time_db_written',
        'number_of_data_values_for_the_data_component', 'NDVAL')
# computed by the writers, whatever is there
DERIVED = {58: ('abscissa_min', 'abscissa_inc', 'num_pts', 'n_bytes', 'byte_ordering', 'fp_format', 'n_ascii_lines'), 82: ('n_nodes',),
           55: ('data_type', 'n_data_per_node')}


def spoilable(d):
    """fields with a number or a text that can be replaced by one which cannot be written"""
    return [k for k, v in d.items() if k not in FREE + DERIVED.get(d['type'], ()) and (isinstance(v, str) or isinstance(v, (int, float)) and d['type'] != 151)]


def spoil(g, d, k):
    d[k] = 'bad \ud800 text' if isinstance(d[k], str) or d['type'] == 151 else g.choice(['abc', '', None, [1, 2]])
    return True


def unwritable(g, d):
    """A value that no record can take: text where a number stands, or text that cannot be encoded."""
    nums = [k for k, v in d.items() if k not in ('type', 'binary', 'abscissa_spacing', 'analysis_type', 'func_type', 'ord_data_type',
                                                 'dataset_location', 'date_db_written', 'time_db_written',
                                                 'number_of_data_values_for_the_data_component', 'NDVAL')
            and k not in DERIVED.get(d['type'], ()) and isinstance(v, (int, float)) and not (d['type'] == 151)]
    texts = [k for k, v in d.items() if isinstance(v, str) and k not in ('date_db_written', 'time_db_written')]
    if d['type'] in (2412, 2429, 2467):
        if d['type'] == 2412:
            e = [x for k in d if isinstance(k, int) for x in d[k]]
            if not e:
                return {}, False
            e[-1]['color'] = 'red'
        else:
            if not d['groups']:
                return {}, False
            d['groups'][-1]['group_number'] = 'one'
        return d, True
    if nums and (not texts or g.flag(.7)):
        d[g.choice(nums)] = g.choice(['abc', '', None, [1, 2]])
        return d, True
    if texts:
        d[g.choice(texts)] = 'bad \ud800 text'
        return d, True
    # arrays only: a list that is too short
    k = {15: 'z', 18: 'xz_point', 2411: 'y'}.get(d['type'])
    if k and len(d[k]):
        d[k] = d[k][:-1]
        return d, True
    return {}, False
