"""More scenarios: framing, defaults, foreign files, generations, non-finite data, conversion, fix_58b."""
import glob
import itertools
import os

import numpy as np

import foreign
import huge
import store


def by_type(ctx, pick=lambda s: True):
    by = {}
    for s in ctx.shapes('all'):
        if pick(s):
            by.setdefault(s['t'], []).append(s)
    return by


def small(s):
    return s.get('n', 0) <= 4 and len(s.get('el', [])) <= 2 and sum(s.get('ent', [0])) <= 6


# ------------------------------------------------------------------ P01 framing
def framing(ctx):
    ctx.model('UffFile', FILE_CFG.replace(' Emit', '') % ((2, 2, 2, '0,1') if ctx.big else (1, 2, 2, '0,1')))
    by = by_type(ctx, small)
    types = sorted(by)
    for k in range(1500 if ctx.big else 150):
        tid = 'frame%d' % k
        if not ctx.wants(tid):
            continue
        g = ctx.gen(tid)
        g.adv = g.flag(.8)
        t = ctx.trace(tid)
        t.new('a')
        for _ in range(g.r.randint(2, 5)):
            fd = g.flag(.7)
            ds = []
            for _ in range(g.r.randint(1, 4)):
                p = g.r.random()
                typ = '58' if p < .3 else g.choice(types)
                ds.append(g.make(g.choice([s for s in by[typ] if typ != '58' or p > .2 or s['bin']])))
                if ds[-1]['type'] == 58 and not fd:
                    ds[-1].setdefault('ord_data_type', g.choice([2, 4, 5, 6]))
                if g.flag(.06):
                    ds.append({'type': g.choice(foreign.UNSUP), 'id1': '    -1'})
            t.write('a', ds, mode='overwrite' if g.flag(.1) else 'add', fd=fd, spoil=g.flag())
            t.query('a')
            t.new('b')
            t.query('b')
            if g.flag(.5):
                t.read('b')
        ctx.add(t, 'sequence', '%d events' % len(t.ev))
    edges(ctx)
    crowd(ctx)


def edges(ctx):
    """Tags and data on both sides of the sizes in which files are usually read."""
    for b in foreign.EDGES:
        for k in range(-8, 9):
            tid = 'edge%d:%d' % (b, k)
            if not ctx.wants(tid):
                continue
            g = ctx.gen(tid)
            eol = g.choice([b'\n', b'\n', b'\r\n'])
            n = g.r.randint(1, 4)
            p = g.r.randrange(4)
            # the opening or the closing tag of the next data-set, or binary data, come to lie there
            size = b + k - {0: 0, 1: 14 + 80 * n, 2: 988 + g.r.randint(0, 8 * n), 3: g.r.randint(0, 300)}[p]
            size = max(size, 60)
            c, it = foreign.filler(g, size, eol)
            t = ctx.trace(tid)
            t.put(c, [it])
            t.new('a')
            first = g.make({'t': '58', 'n': n, 'c': False, 'even': True, 'bin': True, 'fd': True, 'req': 0}) if p == 2 else g.make({'t': '15', 'n': n})
            t.write('a', [first])
            t.query('a')
            if g.flag():
                t.write('a', [g.make({'t': '82', 'n': 3})])
            t.read('a')
            if g.flag(.3):
                t.new('b')
                t.query('b')
            ctx.add(t, 'edge', '%d bytes, then %d' % (len(c), first['type']))


# ------------------------------------------------------------------ files of very many data-sets
def crowd(ctx):
    """Hundreds and thousands of small data-sets in one file."""
    import json
    import props
    by = by_type(ctx, small)
    few = {t: v for t, v in by.items() if t in ('15', '18', '82', '164', '2411', '2412', '2429')}
    pool = [p for p in props.pool(ctx, few, 200 if ctx.big else 70) if len(json.dumps(p[1])) < 1500]
    for n in [101, 129, 257, 1001, 1200, 4100, 6000] if ctx.big else [129, 1201]:
        tid = 'crowd%d' % n
        if not ctx.wants(tid):
            continue
        g = ctx.gen(tid)
        t = ctx.trace(tid)
        bl = [g.choice(pool) for _ in range(n)]
        t.new('a')
        t.put(b''.join(b[0] for b in bl), [b[1] for b in bl])
        t.refresh('a')
        t.query('a')
        for i in [0, 1, n - 1, n, -1, 99, 100, 127, 128, 255, 256, 999, 1000, 1023, 1024, 4095, 4096] + [g.r.randrange(n) for _ in range(6)]:
            t.read('a', i if g.flag(.8) else [i], ho=g.flag(.2))
        t.read('a', [g.r.randrange(n) for _ in range(30)])
        t.write('a', [g.make(g.choice(few['15'])), g.make(g.choice(few['82']))])
        t.query('a')
        t.read('a', [n, n + 1, 0])
        t.write('a', [g.make(g.choice(few[g.choice(sorted(few))])) for _ in range(100)], mode='add')
        t.query('a')
        t.new('b')
        t.query('b')
        t.read('b', [n + 1, n + 2, n + 101])
        if n < 200 and all(b[1]['cls'] != 'bad' for b in bl):
            t.read('b')
        t.write('b', [g.make(g.choice(few['15']))], mode='overwrite')
        t.query('b')
        t.read('a', 0)
        ctx.add(t, 'crowd', '%d data-sets' % n)


# ------------------------------------------------------------------ P03 files changed behind the back
def twins(ctx):
    """The file is replaced by one of the same size, with the same time stamp, or by another object."""
    import props
    by = by_type(ctx, small)
    shapes = {t: ctx.gen('s' + t).r.sample(v, min(25, len(v))) for t, v in sorted(by.items())}
    pool = props.pool(ctx, shapes, 120)
    for k in range(1500 if ctx.big else 130):
        tid = 'twin%d' % k
        if not ctx.wants(tid):
            continue
        g = ctx.gen(tid)
        t = ctx.trace(tid)
        bl = g.r.sample(pool, g.r.randint(2, 4))
        t.new('a')
        for _ in range(g.r.randint(2, 4)):
            t.put(b''.join(b[0] for b in bl), [b[1] for b in bl], unseen=g.flag(.8))
            if g.flag(.7):
                t.refresh('a')
            elif g.flag():
                t.new('a')
            else:
                ds = [g.make(g.choice(shapes[g.choice(sorted(shapes))])) for _ in range(g.r.randint(1, 3))]
                if g.flag(.5):
                    # one that cannot be written behind them
                    ds.append({'type': g.choice([15, 82, 164])})
                t.write('a', ds, mode='overwrite' if g.flag(.2) else 'add')
            for _ in range(g.r.randint(1, 2)):
                if g.flag():
                    t.query('a')
                elif g.flag():
                    t.read('a')
                else:
                    t.read('a', g.r.randrange(len(bl)))
            if g.flag(.7):
                # the same blocks in another order
                g.r.shuffle(bl)
            else:
                bl = g.r.sample(pool, g.r.randint(1, 4))
        ctx.add(t, 'twin', '%d events' % len(t.ev))


# ------------------------------------------------------------------ P05 faults
CONTEXTS = [(there, over, at) for there in (False, True) for over in (False, True) for at in ('alone', 'first', 'middle', 'last')]


def faults(ctx):
    """Every required field left out and every field made unwritable, in every context (thorough) or a random one."""
    by = by_type(ctx, lambda s: small(s) and s.get('n', 1) > 0 and s.get('ent', [1]) and s.get('el', [1]) and min(s.get('ent', [1])) > 0)
    for typ in sorted(by):
        ss = by[typ]
        g0 = ctx.gen('f' + typ)
        kinds = {}
        for s in ss:
            kinds.setdefault((s.get('an'), s.get('loc'), s.get('bin'), s.get('c'), s.get('legacy'), s.get('six')), []).append(s)
        for kind in sorted(kinds, key=str):
            sh0 = g0.choice(kinds[kind])
            gp = ctx.gen('p' + typ)
            gp.plain = True
            probe = gp.make(sh0, 'all')
            cases = [('drop', k) for k in store.required(typ, probe)] if typ in store.REQ else []
            cases += [('spoil', k) for k in store.spoilable(probe)]
            cases += [('nest', i, k) for i, (_, c) in enumerate(containers(probe)) for k in c if i < 2]
            if typ in ('58', '55', '2414') and not ctx.big:
                cases = g0.r.sample(cases, min(len(cases), 12 if typ == '58' else 9))
            for c in cases:
                for j, (there, over, at) in enumerate(CONTEXTS if ctx.big else [g0.choice(CONTEXTS)]):
                    tid = 'fault:%s:%s:%s:%d' % (typ, ','.join(map(str, kind)), ','.join(map(str, c)), j)
                    if not ctx.wants(tid):
                        continue
                    g = ctx.gen(tid)
                    g.plain = True
                    d = g.make(sh0, 'all')
                    uw = False
                    if c[0] == 'drop':
                        d.pop(c[1], None)
                    elif c[0] == 'spoil':
                        uw = store.spoil(g, d, c[1])
                    else:
                        cs = containers(d)
                        if c[1] >= len(cs) or c[2] not in cs[c[1]][1]:
                            continue
                        if c[2] == 'fe_descriptor' or c[2].startswith('active') or g.flag(.5) and c[2] in cs[c[1]][1]:
                            if c[2] in ('num_nodes', 'nodes_nums', 'entity_type_code', 'entity_tag', 'entity_node_leaf_id', 'entity_component_id',
                                        'fe_descriptor'):
                                continue
                            cs[c[1]][1][c[2]] = 'bad \ud800' if c[2] == 'group_name' else g.choice(['abc', None])
                            uw = True
                        else:
                            del cs[c[1]][1][c[2]]
                    fd = g.fd(sh0)
                    t = ctx.trace(tid)
                    t.new('a')
                    if there:
                        t.write('a', [g.make({'t': '15', 'n': 1})])
                    ds = [d]
                    if at in ('middle', 'last'):
                        ds.insert(0, g.make({'t': '82', 'n': 3}))
                    if at in ('middle', 'first'):
                        ds.append(g.make({'t': '164', 'n': 1}))
                    t.write('a', ds, mode='overwrite' if over else 'add', fd=fd, uw=[next(i for i, x in enumerate(ds) if x is d)] if uw else [])
                    t.query('a')
                    if g.flag(.4):
                        t.write('a', [g.make({'t': '15', 'n': 2})])
                    t.new('b')
                    t.query('b')
                    if t.ev[-1]['n']:
                        t.read('a')
                    ctx.add(t, 'fault', '%s %s' % (typ, c))


# ------------------------------------------------------------------ P18 defaults
def containers(d):
    """the dictionaries inside a data-set whose keys are fields: [(name, dictionary)]"""
    t = d['type']
    if t == 2412:
        return [('element %d' % i, e) for i, e in enumerate(x for k in d if isinstance(k, int) for x in d[k])]
    if t in (2429, 2467) and 'groups' in d:
        return [('group %d' % i, x) for i, x in enumerate(d['groups'])]
    return []


def defaults(ctx):
    def pick(s):
        return small(s) and (s.get('n', 1) >= 1) and s.get('el', [1]) and s.get('ent', [1]) and min(s.get('ent', [1])) > 0
    by = by_type(ctx, pick)
    reps = 12 if ctx.big else 2
    for typ in sorted(by):
        shapes = by[typ]
        if typ == '58':
            shapes = ctx.gen('s58').r.sample(shapes, 120 if ctx.big else 16)
        elif typ == '2412':
            shapes = [s for s in shapes if not s['legacy']]
            shapes = ctx.gen('s2412').r.sample(shapes, min(len(shapes), 60 if ctx.big else 12))
        elif len(shapes) > 14:
            # every kind of a 55, and some of a 2414, 2429, 2467
            shapes = ctx.gen('s' + typ).r.sample(shapes, min(len(shapes), 60 if ctx.big else 14))
        for sh in shapes:
            tid0 = 'def:%s' % (sorted(sh.items()),)
            probe = ctx.gen(tid0).make(sh, 'all')
            cases = [('none',), ('all',)] + [('drop', k) for k in probe if k != 'type' and isinstance(k, str)]
            for i, (_, c) in enumerate(containers(probe)):
                cases += [('nest', i, k) for k in c]
            cases += [('some', j) for j in range(reps * (4 if len(shapes) < 4 else 1))]
            for c in cases:
                tid = tid0 + ':' + ','.join(map(str, c))
                if not ctx.wants(tid):
                    continue
                g = ctx.gen(tid)
                d = g.make(sh, {'none': 'none', 'some': 'rand'}.get(c[0], 'all'))
                if c[0] == 'drop':
                    d.pop(c[1], None)
                elif c[0] == 'nest':
                    cs = containers(d)
                    if c[1] >= len(cs) or c[2] not in cs[c[1]][1]:
                        continue
                    del cs[c[1]][1][c[2]]
                elif c[0] == 'some' and g.flag(.4):
                    # a required one, too
                    ks = [k for k in store.REQ.get(typ, []) if k in d]
                    if ks:
                        del d[g.choice(ks)]
                t = ctx.trace(tid)
                t.new('a')
                fd = g.fd(sh)
                t.write('a', [d], fd=fd, mode='overwrite' if g.flag(.2) else 'add', spoil=g.flag())
                t.query('a')
                if not t.ev[1]['err']:
                    t.read('a')
                ctx.add(t, c[0], '%s %s' % (typ, c[1:]))
    # several at once
    for j in range(400 if ctx.big else 40):
        tid = 'list:%d' % j
        if not ctx.wants(tid):
            continue
        g = ctx.gen(tid)
        shs = [g.choice(by[g.choice(sorted(by))]) for _ in range(g.r.randint(2, 4))]
        t = ctx.trace(tid)
        t.new('a')
        t.write('a', [g.make(sh) for sh in shs], fd=all(g.fd(sh) for sh in shs), mode=g.choice(['add', 'overwrite']), spoil=g.flag())
        t.query('a')
        if not t.ev[1]['err']:
            t.read('a')
        ctx.add(t, 'list', str([sh['t'] for sh in shs]))


# ------------------------------------------------------------------ P23 non-finite
SPECIAL = [float('nan'), float('inf'), float('-inf')]


def nonfinite(ctx):
    for k in range(12 if ctx.big else 2):
        for sh in ctx.shapes('58'):
            tid = 'nan:%s#%d' % (sorted(sh.items()), k)
            if not ctx.wants(tid):
                continue
            g = ctx.gen(tid)
            d = g.make(sh)
            a = np.array(d['data'])
            if np.iscomplexobj(a):
                re, im = a.real.copy(), a.imag.copy()
                parts = [re, im]
            else:
                parts = [a.astype(float)]
            hit = False
            for p in parts:
                for i in range(len(p)):
                    if g.flag(.5):
                        p[i] = g.choice(SPECIAL)
                        hit = True
            if not hit:
                parts[g.r.randrange(len(parts))][g.r.randrange(len(a))] = g.choice(SPECIAL)
            if len(parts) == 2:
                b = np.empty(len(a), complex)
                b.real, b.imag = parts
                d['data'] = b
            else:
                d['data'] = parts[0]
            if g.flag(.15):
                d['data'] = list(d['data'])
            elif g.flag(.15):
                d['data'] = d['data'].astype(d['data'].dtype.newbyteorder('>'))
            elif g.flag(.1):
                d['data'].flags.writeable = False
            t = ctx.trace(tid)
            t.new('a')
            t.write('a', [d] if g.flag() else [d, g.make({'t': '15', 'n': 1})], fd=g.fd(sh))
            t.read('a')
            t.query('a')
            ctx.add(t, 'complex' if sh['c'] else 'real', str(sh))


# ------------------------------------------------------------------ P20 generations
def generations(ctx):
    by = by_type(ctx)
    caps = {'58': 140, '2414': 60, '2412': 40, '55': 48, '2429': 40, '2467': 40}
    cases = []
    for typ in sorted(by):
        g = ctx.gen('pick' + typ)
        ss = by[typ]
        n = caps.get(typ, 15) * (6 if ctx.big else 1)
        ss = ss * (1 + n // len(ss)) if len(ss) < n else g.r.sample(ss, n)
        cases += [[s] for s in ss[:n]]
    g = ctx.gen('mixed')
    sm = [s for t in sorted(by) for s in g.r.sample(by[t], min(10, len(by[t])))]
    cases += [[g.choice(sm) for _ in range(g.r.randint(2, 5))] for _ in range(400 if ctx.big else 60)]
    for tid, ds, fd in samples(ctx):
        generation(ctx, ctx.gen(tid), tid, ds, fd, any(d['type'] == 58 for d in ds), 'sample', tid)
    for k, shapes in enumerate(cases):
        tid = 'gen%d' % k
        if not ctx.wants(tid):
            continue
        g = ctx.gen(tid)
        ds = [g.make(s) for s in shapes]
        fd = True if any(not s.get('fd', True) is False for s in shapes if s['t'] == '58') else g.flag()
        if any(s['t'] == '58' and not s['fd'] for s in shapes):
            fd = False
        for d in ds:
            if d['type'] == 58 and not fd:
                d.setdefault('ord_data_type', g.choice([2, 4, 5, 6]))
        generation(ctx, g, tid, ds, fd, k % 3 == 0 and any(s['t'] == '58' for s in shapes), 'mixed' if len(shapes) > 1 else shapes[0]['t'], str(shapes)[:200])


def samples(ctx):
    """what is read from the sample files of other programs that come with the repository"""
    import drive
    import enc
    import pyuff
    most = 200000 if ctx.big else 30000
    for f in sorted(glob.glob(os.path.join(datadir(), '*'))):
        name = 'data:' + os.path.basename(f).replace(' ', '_')
        u, err = drive.call(pyuff.UFF, f)
        types = [] if u is None else drive.call(u.get_set_types)[0]
        if types is None or len(types) == 0:
            continue
        size = os.path.getsize(f)
        if size > 4000000:
            continue
        g = ctx.gen(name)
        picks = [[i] for i in g.r.sample(range(len(types)), min(len(types), 24 if ctx.big else 5))]
        if size <= most and len(types) > 1:
            picks.append(list(range(len(types))))
        for ix in picks:
            tid = '%s:%s' % (name, 'all' if len(ix) > 1 else ix[0])
            if not ctx.wants(tid):
                continue
            ds = []
            for i in ix:
                d, err = drive.call(u.read_sets, int(i))
                if isinstance(d, dict) and len(d) > 1:
                    ds.append(d)
            if not ds or any(len(enc.canon(d)) > 3 * most for d in ds):
                continue
            yield tid, ds, all(d.get('ord_data_type') in (None, 4, 6) for d in ds) or g.flag()


def generation(ctx, g, tid, ds, fd, switch, kind, about):
    """data-sets are written, read, and what was read is written again"""
    t = ctx.trace(tid)
    t.new('a')
    groups = [([], [])]             # generations of one precision
    for n in range(4):
        if n == 2 and switch:
            # from now on in the other precision
            fd = not fd
            groups.append(([], []))
        t.write('a', ds, mode='overwrite', fd=fd, bare=g.flag() if len(ds) == 1 else None)
        if t.ev[-1]['err']:
            break
        groups[-1][1].append(t.bytes())
        t.read('a' if g.flag() else t.new('b')['o'], keep=True)
        if t.ev[-1]['err']:
            break
        ds = t.last_read
        # fingerprints are taken before the writer could touch them
        groups[-1][0].append([s['fpf'] for s in t.ev[-1]['sets']])
    else:
        for rs, bs in groups:
            t.same(rs, bs)
    ctx.add(t, kind, about)


# ------------------------------------------------------------------ files of other programs
def put_read(ctx, tid, kind, content, items, g, alone=None):
    t = ctx.trace(tid)
    if alone is not None:
        # the block on its own first
        t.put(alone[0], [alone[1]])
        t.new('s')
        t.read('s')
    t.put(content, items)
    t.new('a')
    t.query('a')
    if any(i['cls'] == 'bad' for i in items):
        for i in range(len(items)):
            t.read('a', i)
        # all of them: the damaged one is not left out
        t.read('a')
        t.read('a', [g.r.randrange(len(items)) for _ in range(3)], ho=g.flag(.3))
    else:
        t.read('a')
    if g.flag(.6):
        for i in g.r.sample(range(len(items)), min(2, len(items))):
            t.read('a', i if g.flag() else [i], ho=g.flag())
    if g.flag(.3):
        t.read('a', None, True)
    return t


def foreign58b(ctx):
    shapes = [s for s in ctx.shapes('58') if s['bin'] and s['fd'] is False and s['req'] in (2, 4) or s['bin'] and s['fd']]
    cases, meta = [], {}
    combos = list(itertools.product((1, 2), 'bB', ('lf', 'crlf'), (True, False)))
    by = by_type(ctx, small)
    others = [s for t in sorted(by) for s in by[t][:20]]
    for k, sh in enumerate(shapes):
        g0 = ctx.gen('c%d' % k)
        for j, (bo, up, eol, own) in enumerate(combos if ctx.big else g0.r.sample(combos, 8)):
            tid = '58b:%d:%d%s%s%d' % (k, bo, up, eol, own)
            g = ctx.gen(tid)
            st = foreign.style(g, bo=bo, up=up, eol=eol, own=own)
            bl = [foreign.block(g, sh, st)]
            if g.flag(.4):
                bl.insert(0, one(g, others))
            if g.flag(.4):
                bl.append(one(g, others))
            if g.flag(.2):
                bl.append(foreign.block(g, g.choice(shapes)))
            cases.append({'id': tid, 'blocks': [b[0] for b in bl], 'final': g.flag(.8)})
            meta[tid] = ([b[1] for b in bl], str(sh))
    run_cases(ctx, cases, meta)
    huge.foreign(ctx, lambda s: s.get('bin'))
    framefiles(ctx, lambda f: any(b['k'] == 'bin' for b in f['bs']), 2500)


def one(g, shapes, kinds=('ok', 'ok', 'unsup')):
    k = g.choice(kinds)
    return foreign.block(g, g.choice(shapes)) if k == 'ok' else foreign.unsup(g) if k == 'unsup' else foreign.bad(g)


def run_cases(ctx, cases, meta, kind='file'):
    if ctx.only:
        cases = [c for c in cases if c['id'] == ctx.only]
    parts = foreign.render(ctx, cases)
    for c in cases:
        if not ctx.wants(c['id']):
            continue
        items, note = meta[c['id']]
        g = ctx.gen('r' + c['id'])
        content, items = foreign.far(g, foreign.build(parts[c['id']]['parts']), items)
        t = put_read(ctx, c['id'], note, content, items, g)
        ctx.add(t, kind, note)


def foreigntext(ctx):
    by = by_type(ctx, lambda s: not s.get('bin'))
    cases, meta = [], {}
    caps = {'58': 70, '2414': 60, '2412': 40, '55': 40, '2429': 30, '2467': 30}
    for typ in sorted(by):
        ss = by[typ]
        n = caps.get(typ, 30) * (10 if ctx.big else 1)
        ss = (ss * (1 + n // len(ss)))[:n] if len(ss) < n else ctx.gen('pick' + typ).r.sample(ss, n)
        for k, sh in enumerate(ss):
            if typ == '2412' and sh.get('legacy'):
                continue
            tid = 'text:%s:%d' % (typ, k)
            g = ctx.gen(tid)
            b = foreign.block(g, sh)
            cases.append({'id': tid, 'blocks': [b[0]], 'final': g.flag(.75)})
            meta[tid] = ([b[1]], '%s %s' % (typ, b[0]['st']))
    g = ctx.gen('mixed')
    al = [s for t in sorted(by) for s in g.r.sample(by[t], min(12, len(by[t]))) if not s.get('legacy')]
    for k in range(300 if ctx.big else 40):
        tid = 'mixed:%d' % k
        g = ctx.gen(tid)
        st = foreign.style(g)
        bl = [foreign.block(g, g.choice(al), st if g.flag(.8) else None) for _ in range(g.r.randint(2, 5))]
        cases.append({'id': tid, 'blocks': [b[0] for b in bl], 'final': g.flag(.75)})
        meta[tid] = ([b[1] for b in bl], 'mixed')
    run_cases(ctx, cases, meta)
    huge.foreign(ctx, lambda s: not s.get('bin'))
    records(ctx)


def records(ctx):
    """the data-sets of the sample files, against their own records"""
    import drive
    import pyuff
    most = 400000 if ctx.big else 40000
    for f in sorted(glob.glob(os.path.join(datadir(), '*'))):
        if os.path.getsize(f) > 4000000:
            continue
        with open(f, 'rb') as h:
            lines = h.read().decode('utf-8', 'replace').replace('\r\n', '\n').split('\n')
        marks = [i for i, l in enumerate(lines) if l.rstrip() == '    -1']
        if len(marks) % 2 or not marks or any(lines[i + 1][6:7].lower() == 'b' for i in marks[::2]):
            continue
        name = 'records:' + os.path.basename(f).replace(' ', '_')
        blocks = [lines[a + 1:b] for a, b in zip(marks[::2], marks[1::2])]
        g = ctx.gen(name)
        good = [k for k, b in enumerate(blocks) if b and sum(map(len, b)) <= most]
        for k in sorted(g.r.sample(good, min(len(good), 60 if ctx.big else 8))):
            tid = '%s:%d' % (name, k)
            if not ctx.wants(tid):
                continue
            u, err = drive.call(pyuff.UFF, f)
            d = None
            if not err:
                d, err = drive.call(u.read_sets, k)
            if d is not None and (len(d) == 1 or d.get('num_pts', 0) != len(d.get('data', ()))):
                continue                # a type without a reader, or counts that do not tell the truth
            t = ctx.trace(tid)
            t.sample(d, err, blocks[k][1:])
            ctx.add(t, 'sample', tid)


def datadir():
    import pyuff
    return os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(pyuff.__file__))), 'data')


# ------------------------------------------------------------------ P24 isolation
def isolation(ctx):
    by = by_type(ctx, small)
    shapes = {t: ctx.gen('s' + t).r.sample(v, min(25, len(v))) for t, v in sorted(by.items())}
    pool = store_pool(ctx, shapes, 900 if ctx.big else 220)
    good = [i for i, p in enumerate(pool) if p[1]['cls'] != 'bad']

    def kind(p):
        return p[1]['type'] if 'type' in p[1] else '%d' % float(p[1]['d']['type'][1][:2] + '.' + p[1]['d']['type'][1][2:])
    alike = {}
    for i, p in enumerate(pool):
        alike.setdefault(kind(p), []).append(i)
    framefiles(ctx, lambda f: not any(b['k'] == 'bin' for b in f['bs']))
    for k in range(3000 if ctx.big else 330):
        tid = 'iso%d' % k
        if not ctx.wants(tid):
            continue
        g = ctx.gen(tid)
        me = good[k % len(good)]
        idx = [me]
        for _ in range(g.r.randint(1, 4)):
            # others, often of the same type
            idx.insert(g.r.randint(0, len(idx)), g.choice(alike[kind(pool[me])]) if g.flag(.4) else g.r.randrange(len(pool)))
        bl = [pool[i] for i in idx]
        content, items = foreign.far(g, b''.join(b[0] for b in bl), [b[1] for b in bl])
        t = put_read(ctx, tid, 'iso', content, items, g, alone=pool[me])
        ctx.add(t, pool[me][1]['cls'], 'pool %s' % idx)
    pairs(ctx, pool, alike)


def pairs(ctx, pool, alike):
    """a damaged data-set after and before a sound one of its type"""
    for i, p in enumerate(pool):
        if p[1]['cls'] != 'bad':
            continue
        ok = [j for k, v in sorted(alike.items()) if k in (p[1]['type'], '15') for j in v if pool[j][1]['cls'] == 'ok']
        tid = 'pair%d' % i
        if not ok or not ctx.wants(tid):
            continue
        g = ctx.gen(tid)
        bl = [pool[g.choice(ok)], p, pool[g.choice(ok)]]
        t = ctx.trace(tid)
        t.put(b''.join(b[0] for b in bl), [b[1] for b in bl])
        t.new('a')
        t.query('a')
        t.read('a')
        for sel in ([0, 1], [1, 0], [2, 1, 0], [0, 2], 1, 0):
            t.read('a', sel, ho=g.flag(.2))
        ctx.add(t, 'pair', 'pool %d' % i)


# ------------------------------------------------------------------ P26 what objects say
def about(ctx):
    sup = [15, 18, 55, 58, 82, 151, 164, 1858, 2400, 2411, 2412, 2414, 2420, 2429, 2467]
    others = [n for n in list(range(0, 3100 if not ctx.big else 12000)) + [9999, 10000, 58580, 99999, 999999] if n not in sup]
    for k in range(0, len(others), 60):
        tid = 'types%d' % others[k]
        if not ctx.wants(tid):
            continue
        g = ctx.gen(tid)
        ns = others[k:k + 60]
        t = ctx.trace(tid)
        t.new('a')
        ds = [{'type': n, 'x': np.zeros(2)} if g.flag(.2) else {'type': n} for n in ns]
        t.write('a', ds)
        t.write('a', [g.make({'t': '15', 'n': 1})], mode='overwrite' if g.flag(.3) else 'add')
        t.write('a', ds)
        t.query('a')
        st = ['    -1', '%6i', '         1         2', '    -1']
        t.put(''.join('\n'.join(st) % n + '\n' for n in ns).encode(), [{'cls': 'unsup', 'type': str(n), 'fmt': '0'} for n in ns])
        t.new('b')
        t.query('b')
        t.read('b')
        ctx.add(t, 'types', str(ns[0]))
    by = by_type(ctx, small)
    for typ in sorted(by):
        for k in range(20 if ctx.big else 4):
            tid = 'self:%s:%d' % (typ, k)
            if not ctx.wants(tid):
                continue
            g = ctx.gen(tid)
            sh = g.choice(by[typ])
            t = ctx.trace(tid)
            t.new('a')
            t.query('a')
            t.doc(typ)
            t.write('a', [g.make(sh)], fd=g.fd(sh))
            t.query('a')
            t.new('b')
            t.query('b')
            t.read('a')
            if g.flag():
                t.delete()
            else:
                b, it = foreign.filler(g, 200)
                t.put(b, [it])
            t.query('a')
            t.query('b')
            t.refresh('a')
            t.query('a')
            ctx.add(t, 'self', typ)


# ------------------------------------------------------------------ P25 nothing left behind
def leftovers(ctx):
    faults(ctx)
    by = by_type(ctx, small)
    shapes = {t: ctx.gen('s' + t).r.sample(v, min(25, len(v))) for t, v in sorted(by.items())}
    pool = store_pool(ctx, shapes, 900 if ctx.big else 240)
    for k in range(0, len(pool), 3):
        tid = 'left%d' % k
        if not ctx.wants(tid):
            continue
        g = ctx.gen(tid)
        bl = pool[k:k + 3]
        t = ctx.trace(tid)
        t.new('a')
        t.read('a')
        t.put(b''.join(b[0] for b in bl), [b[1] for b in bl])
        t.query('a')
        for i in [0, 1, 2, 3, -1]:
            t.read('a', i, ho=g.flag(.2))
        t.read('a', [0, 1, 2])
        t.read('a')
        t.odd('a', g)
        ds = [g.make(g.choice(shapes[g.choice(sorted(shapes))])) for _ in range(g.r.randint(1, 3))]
        for _ in range(g.r.randint(0, 2)):
            ds.insert(g.r.randint(0, len(ds)), g.choice([{'type': 999}, {'type': 781, 'x': 1}, {}, {'type': 15}]))
        t.write('a', ds, mode=g.choice(['add', 'add', 'no mode', 'overwrite', 'overwrite']))
        t.refresh('a')
        t.odd('a', g)
        t.odd('a', g)
        t.refresh('a')
        t.query('a')
        ctx.add(t, 'left', 'pool %d..' % k)
    fixes(ctx)


# ------------------------------------------------------------------ every small file (UffFile)
FILE_CFG = ('SPECIFICATION Spec\nINVARIANTS Recovers Emit\nCHECK_DEADLOCK FALSE\n'
            'CONSTANTS MaxLines=%d MaxPay=%d MaxBlocks=%d Gaps={%s}\n')


def framefiles(ctx, want, cap1=0):
    """The files enumerated by UffFile, with real lines and bytes in place of the symbols."""
    import tlc
    sizes = [(1, 2, 2, '0,1', cap1), (1, 1, 3, '0', 1000)]
    if ctx.big:
        sizes = [(1, 3, 2, '0,1', 0), (2, 2, 2, '0,1', 20000), (1, 1, 3, '0', 20000)]
    cases, meta = [], {}
    for j, (ml, mp, mb, gaps, cap) in enumerate(sizes):
        out = ctx.model('UffFile', FILE_CFG % (ml, mp, mb, gaps))
        fs = [f for f in tlc.lines(out, 'FRAME') if f['bs'] and want(f)]
        if cap and len(fs) > cap:
            fs = ctx.gen('frames%d' % j).r.sample(fs, cap)
        for k, f in enumerate(fs):
            tid = 'file%d:%d' % (j, k)
            g = ctx.gen(tid)
            st = foreign.style(g, ts='', left=False, ex='e', fill=False, pad=g.choice(['none', '80', 'strip']), own=True)
            bl = [frameblock(g, b, dict(st, own=b['own'], gap=[''] * b['gap'])) for b in f['bs']]
            cases.append({'id': tid, 'blocks': [b[0] for b in bl], 'final': f['final']})
            meta[tid] = ([b[1] for b in bl], str(f['bs']))
    run_cases(ctx, cases, meta, 'frame')


TYP = ['   164', '   781', '    58', '    15', '999999', '     1', '  2411', '  2412']


def frameblock(g, b, st):
    if b['k'] == 'asc':
        t = g.choice(foreign.UNSUP)
        sup = g.flag(.3)
        if sup:
            t = g.choice([15, 55, 58, 82, 151, 164, 2411, 2412, 2414])
        ls = ['%6i' % t]
        for l in b['ls']:
            ls.append(''.join({'tag': '    -1', 'typ': g.choice(TYP)}.get(s) or g.choice(['x', ' 1.0', '         1', '-', 'abc def', '0', '1', '  .'])
                              for s in l))
        return {'k': 'raw', 'ls': ls, 'st': st, 'join': not b['own']}, {'cls': 'bad' if sup else 'unsup', 'type': str(t), 'fmt': '0'}
    # binary data: fill up to whole numbers
    eol = '\n' if st['eol'] == 'lf' else '\r\n'
    parts = [{'tag': '    -1', 'nl': g.choice([eol, eol, '\n', '\r\n', '\r'])}.get(s) for s in b['pay']]
    free = [i for i, p in enumerate(parts) if p is None]
    for i in free:
        parts[i] = ''.join(g.choice(' 015-b.Aaz~') for _ in range(g.r.randint(1, 5)))
    n = sum(map(len, parts))
    if free and n % 4:
        i = g.choice(free)
        parts[i] += ''.join(g.choice(' 015-b.Aaz~') for _ in range(4 - n % 4))
    pay = ''.join(parts).encode()
    if len(pay) == 0 or len(pay) % 4:
        # no data-set with such data: it is found, but not read
        d = dict(type='58', n=len(pay))
        ls = ['%6i%s%6i%6i%12i%12i%6i%6i%12i%12i' % (58, st['up'], st['bo'], 2, 11, len(pay), 0, 0, 0, 0)] + ['line %i' % i for i in range(11)]
        return {'k': 'pay', 'ls': ls, 'h': pay.hex(), 'st': st}, {'cls': 'bad', 'type': '58', 'fmt': '1'}
    sh = {'t': '58', 'n': len(pay) // 4, 'c': False, 'even': True, 'bin': True, 'fd': False, 'req': 2}
    g.few = True
    d = g.make(sh, 'all')
    g.few = False
    d['data'] = np.frombuffer(pay, '<f4' if st['bo'] == 1 else '>f4').astype(float)
    d['x'] = np.arange(len(d['data'])) * .5
    r = foreign.enc.annotate(d, foreign.enc.dset(d), False)
    r['$bo'] = ['n', foreign.enc.num(st['bo'])]
    return {'k': 'ok', 'd': r, 'fd': False, 'st': st}, {'cls': 'ok', 'd': r, 'fd': False}


def store_pool(ctx, shapes, n):
    import props
    return props.pool(ctx, shapes, n, ('ok', 'ok', 'ok', 'ok', 'unsup', 'bad', 'hurt', 'hurt'))


# ------------------------------------------------------------------ P21 fix_58b
def fixes(ctx):
    by = by_type(ctx, small)
    others = [s for t in sorted(by) for s in ctx.gen('o' + t).r.sample(by[t], min(12, len(by[t])))]
    s58 = [s for s in by['58'] if s['bin']]
    cases, meta = [], {}
    for k in range(3000 if ctx.big else 420):
        tid = 'fix%d' % k
        g = ctx.gen(tid)
        eol = g.choice(['lf', 'crlf'])
        own = g.choice([True, True, False, None])
        bl = []
        for _ in range(g.r.randint(1, 4)):
            st = foreign.style(g, eol=eol, own=g.flag() if own is None else own)
            st['gap'] = []
            if st['ts'][:1] not in ('', ' '):
                st['ts'] = ''
            p = g.r.random()
            bl.append(foreign.block(g, g.choice(s58), st) if p < .6 else foreign.block(g, g.choice(others), st) if p < .85 else
                      foreign.unsup(g, st) if p < .95 else foreign.bad(g, st, junky=False))
        cases.append({'id': tid, 'blocks': [b[0] for b in bl], 'final': g.flag(.8), 'fix': True})
        meta[tid] = [b[1] for b in bl]
    if ctx.only:
        cases = [c for c in cases if c['id'] == ctx.only]
    parts = foreign.render(ctx, cases)
    for c in cases:
        tid = c['id']
        if not ctx.wants(tid):
            continue
        g = ctx.gen('r' + tid)
        t = ctx.trace(tid)
        p = parts[tid]
        orig = foreign.build(p['parts'])
        items = [dict(it, key='b%d' % i) for i, it in enumerate(meta[tid])]
        t.put(orig, items)
        t.new('a')
        t.query('a')
        for i in range(len(items)):
            t.read('a', i)
        want = [foreign.build(p['fixed'])]
        if c['final'] and g.flag(.2):
            # empty lines at the end of the file: the last closing tag may stay where it is
            eol = b'\r\n' if c['blocks'][0]['st']['eol'] == 'crlf' else b'\n'
            tail = eol * g.r.randint(1, 3)
            a, b = want[0].rfind(b'    -1'), orig.rfind(b'    -1')
            stay = want[0][:a] + (eol if orig[:b].endswith(eol) and not want[0][:a].endswith(eol) else b'') + want[0][a:]
            want = [want[0] + tail, stay + tail]
            orig += tail
        got = t.fix(orig, want, named=g.flag())
        if not t.ev[-1]['err']:
            t.put(got, items)
            t.new('b')
            t.query('b')
            for i in range(len(items)):
                t.read('b', i)
        ctx.add(t, 'fix', str([b['st'].get('own') for b in c['blocks']]))
    for k, named in enumerate((True, False)):
        tid = 'fixmissing%d' % k
        if ctx.wants(tid):
            t = ctx.trace(tid)
            t.fix(None, None, named)
            ctx.add(t, 'missing')


# ------------------------------------------------------------------ P22 conversion
def conversions(ctx):
    by = by_type(ctx, small)
    s2412 = [s for s in ctx.shapes('2412')]
    others = [s for t in sorted(by) if t != '2412' for s in ctx.gen('o' + t).r.sample(by[t], min(6, len(by[t])))]
    for k in range(4000 if ctx.big else 300):
        tid = 'conv%d' % k
        if not ctx.wants(tid):
            continue
        g = ctx.gen(tid)
        ds = []
        for _ in range(g.r.randint(0, 5)):
            p = g.r.random()
            if p < .75:
                d = g.make(g.choice([s for s in s2412 if p < .2 or any(e[0] == 44 for e in s['el'])]))
            else:
                d = g.make(g.choice(others))
                if g.flag(.3) and d['type'] != 2412:
                    d['quad'] = g.make({'t': '2412', 'legacy': True, 'el': [[44, 4]]})['quad']
            ds.append(d)
        t = ctx.trace(tid)
        if ds and g.flag(.5):
            # as read from a file
            t.new('w')
            t.write('w', ds)
            if t.ev[-1]['err'] == '':
                t.read('w', keep=True)
                ds = list(t.last_read or [])
        out = t.conv(ds)
        out = [d for d in out if d.get('type') == 82]
        if out:
            t.new('a')
            t.write('a', out, mode='overwrite')
            t.read('a')
        ctx.add(t, 'convert', '%d data-sets' % len(ds))


# ------------------------------------------------------------------ P19 prepare functions
class Values:
    """values of the classes of UffPrep, different in every call"""

    def __init__(self, g):
        self.g = g
        self.k = g.r.randint(2, 50)

    def of(self, c, v=0, kind='', members=()):
        self.k += 1
        k, g = self.k, self.g
        if kind in ('enum', 'enums'):
            i, f = v, v + .5
            ints = [g.choice(members) for _ in range(3)]
            ints[g.r.randrange(3)] = v
        else:
            i, f = k, k + g.choice([.25, .5, 0.])
            ints = [k, k + 1, g.choice([0, -k])]
        fl = [f, -1.5 * k, 0.]
        cp = complex(f, k)
        if c in ('mask', 'amask'):
            m = [k] + [g.r.randint(0, 9) for _ in range(31)]
            return m if c == 'mask' else np.array(m)
        return {'int': i, 'ints': ints, 'aint': np.array(ints), 'flt': float(f), 'flts': fl, 'aflt': np.array(fl), 'cplx': cp,
                'acplx': np.array([cp, 2 * cp]), 'str': 'text %d' % k, 'strs': ['a%d' % k, 'b'], 'dict': {'a': k}, 'npint': np.int64(i),
                'npflt': np.float64(f), 'neg': -k, 'empty': '',
                'noints': np.array([], int), 'noflts': np.array([], float)}[c]

    def groups(self, fn, bad):
        gs = []
        for _ in range(self.g.r.randint(1, 3)):
            self.k += 1
            gr = {'group_number': self.k, 'group_name': 'group %d' % self.k}
            for a in self.g.GRP:
                self.k += 1
                gr[a] = self.k
            n = self.g.r.randint(0, 3)
            for a in ('entity_type_code', 'entity_tag') + (('entity_node_leaf_id', 'entity_component_id') if fn == '2467' else ()):
                self.k += 1
                gr[a] = np.arange(self.k, self.k + n)
            gs.append(gr)
        if not bad:
            return gs
        p = self.g.r.randrange(4)
        x = self.g.choice(gs)
        if p == 0:
            return gs[0]
        a = self.g.choice(sorted(x))
        if p == 1:
            x[a] = 'text' if a != 'group_name' else 7
        elif p == 2:
            x[self.g.choice(self.g.GRP + ('group_number',))] = -3
        else:
            x['group_name'] = ''
        return gs


GOOD = {'int': ('int', 'ints', 'aint'), 'ints': ('ints', 'aint'), 'Int': ('int',), 'flt': ('flt', 'flts', 'aflt'), 'fltc': ('aflt', 'flts'),
        'Flt': ('flt',), 'real': ('ints', 'aflt', 'flts'), 'num': ('aflt', 'acplx', 'flt', 'cplx', 'int'), 'cplx': ('aflt', 'acplx'),
        'str': ('str', 'empty'), 'names': ('strs',), 'enum': ('int',), 'enums': ('ints', 'aint'), 'mask': ('mask', 'amask'),
        'groups': ('groups',), 'pos': ('int',), 'name': ('str',), 'any': ('int', 'flt', 'str', 'aflt', 'strs')}


def prepares(ctx):
    out = ctx.model('UffPrepGen', 'SPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n', env={'UFF_TIER': ctx.tier})
    import json
    import tlc
    sig = {s['fn']: s for s in tlc.lines(out, 'SIG')}
    calls = sorted(tlc.lines(out, 'CALL'), key=lambda c: json.dumps(c, sort_keys=True))
    by = {}
    for c in calls:
        by.setdefault('%s:%s' % (c['fn'], c['arg'] or '(all)'), []).append(c)
    for tid in sorted(by):
        if not ctx.wants(tid):
            continue
        g = ctx.gen(tid)
        t = ctx.trace(tid)
        for c in by[tid] * (1 if c['arg'] or ctx.big else 4):
            one_call(g, t, sig[c['fn']], c)
        ctx.add(t, 'calls', tid)
    prepared(ctx, sig)


def one_call(g, t, s, c):
    vals = Values(g)
    fn = s['fn']

    def good(a):
        cl = g.choice(GOOD[a['kind']])
        if a['kind'] == 'groups':
            return cl, vals.groups(fn, False)
        m = a['members']
        return cl, vals.of(cl, g.choice(m) if m else 0, a['kind'], m)
    w = c['with'] if c['with'] != 'any' else g.choice(['alone', 'all', 'random'])
    keep = {'alone': 0, 'none': 0, 'all': 1, 'random': .5, 'without': 1}[w]
    kw, cls = {}, {}
    drop = g.choice([a['name'] for a in s['args']]) if w == 'without' else None
    for a in s['args']:
        n = a['name']
        if n == c['arg']:
            cls[n] = c['c']
            kw[n] = vals.groups(fn, c['c'] == 'badgroups') if 'groups' in c['c'] else vals.of(c['c'], c['v'], a['kind'], a['members'])
        elif n != drop and (g.r.random() < keep or (n in s['must'] and (c['arg'] or w == 'random'))):
            cls[n], kw[n] = good(a)
    names = list(kw)
    g.r.shuffle(names)
    t.prep(fn, {n: kw[n] for n in names}, cls, c['full'])


CONV = {'int': int, 'ints': int, 'flt': float, 'fltc': float, 'real': None, 'num': None, 'cplx': None}


def fit(g, a, v):
    """the value of a data-set as the prepare function takes it (arrays of other than native double precision are not settled)"""
    k = a['kind']
    if isinstance(v, np.ndarray):
        v = v.astype({'i': 'i8', 'f': 'f8', 'c': 'c16'}[v.dtype.kind])
    if k == 'cplx' and np.array(v).dtype.kind == 'i':
        v = np.array(v, float)
    if k == 'enum':
        return v if v in a['members'] else g.choice(a['members'])
    if k == 'enums':
        return [x if x in a['members'] else g.choice(a['members']) for x in v]
    if k == 'int' and isinstance(v, str):
        return int(v)
    if k in ('flt', 'fltc', 'int', 'ints') and not isinstance(v, (int, float)):
        return np.array(v, CONV[k]) if len(v) == 0 or not isinstance(v, list) else v
    if k == 'pos':
        return abs(v)
    if k == 'name':
        return v or 'group'
    return v


def klass(v):
    """the class of a value for UffPrep"""
    if isinstance(v, str):
        return 'str' if v else 'empty'
    if isinstance(v, (int, np.integer)):
        return ('int' if isinstance(v, int) else 'npint') if v >= 0 else 'neg'
    if isinstance(v, (float, np.floating)):
        return 'flt' if isinstance(v, float) else 'npflt'
    if isinstance(v, complex):
        return 'cplx'
    if isinstance(v, dict):
        return 'dict'
    if isinstance(v, list) and v and isinstance(v[0], str):
        return 'strs'
    if isinstance(v, list) and v and isinstance(v[0], dict):
        return 'groups'
    k = np.array(v).dtype.kind
    if k == 'i' and np.shape(v) == (32,):
        return 'mask'
    return {'i': 'aint', 'f': 'aflt', 'c': 'acplx'}[k]


def prepared(ctx, sig):
    """data-sets of every shape made by the prepare functions, written and read"""
    def fits(s):
        if s['t'] == '2414':
            return s['an'] == 5 and s['loc'] == 1 and s['n'] > 0
        if s['t'] == '2412':
            return s['legacy'] and all(len({nn for dd, nn in s['el'] if dd == desc}) < 2 for desc in (41, 44))
        return s.get('n', 1) > 0 and all(s.get('ent', [1])) and s.get('ent', [1])
    by = by_type(ctx, lambda s: small(s) and fits(s))
    for typ in sorted(by):
        ss = by[typ]
        n = 400 if ctx.big else 24
        for k in range(n):
            tid = 'made:%s:%d' % (typ, k)
            if not ctx.wants(tid):
                continue
            g = ctx.gen(tid)
            sh = g.choice(ss)
            g.plain = True
            d = g.make(sh, g.choice(['all', 'rand', 'rand', 'none']))
            t = ctx.trace(tid)
            t.new('a')
            full = False

            def prep(fn, d):
                kw = {a['name']: fit(g, a, d[a['name']]) for a in sig[fn]['args'] if a['name'] in d}
                return t.prep(fn, kw, {k: klass(v) for k, v in kw.items()}, full)
            if typ in ('2429', '2467'):
                gs = [prep('group' + typ, x) for x in d['groups']]
                d = None if None in gs else prep(typ, {'groups': gs})
            elif typ == '2412':
                e = {m: prep(typ, d[m]) for m in ('triangle', 'quad') if m in d}
                d = None if None in e.values() else dict(e, type=2412)
            else:
                if typ == '151':
                    for x in ('date', 'time'):
                        if x + '_file_written' in d:
                            d[x + '_db_written'] = d.pop(x + '_file_written')
                d = prep(typ, d)
            if d is not None:
                if typ == '58' and not g.fd(sh):
                    d.setdefault('ord_data_type', 2)
                t.write('a', [d], fd=g.fd(sh))
                t.read('a')
            ctx.add(t, 'made', str(sh))
