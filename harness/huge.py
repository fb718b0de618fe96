"""Data-sets of many thousand rows: written and read whole, judged in windows.

A window is the data-set cut to the rows a..b; its lines are the header of the block, the lines of these rows and the closing tag, so
the specification judges it as it judges any block ($total: the number of rows of the whole data-set, $x0, $dx: its abscissa)."""
import numpy as np

import enc

# lines before the first row: the delimiter, the type number, the header
HEAD = {'15': 2, '18': 2, '55': 10, '58': 13, '82': 4, '2411': 2, '2412': 2, '2414': 15, '2420': 4, '2429': 4, '2467': 4}


def kind(t, **k):
    return dict({'t': t}, **k)


def kinds(ctx):
    """(shape, rows per period, lines per period)"""
    res = []
    for c in (False, True):
        for even in (True, False):
            for b in (False, True):
                for fd, req in ((True, 0), (False, 2)):
                    v = (2 if c else 1) + (0 if even else 1)
                    per = 6 if not fd else (4 if even or not c else 3)
                    res.append((kind('58', c=c, even=even, bin=b, fd=fd, req=req), 12, 12 * v // per))
    res.append((kind('15'), 1, 1))
    res.append((kind('2411'), 1, 2))
    res.append((kind('18'), 1, 4))
    res.append((kind('2420'), 1, 6))
    res.append((kind('82'), 8, 1))
    for an, c, six, lines in ((2, False, False, 2), (5, True, False, 2), (3, True, True, 3)):
        res.append((kind('55', an=an, c=c, six=six), 1, lines))
    for m in (1, 3):
        res.append((kind('2414', an=5, loc=1, m=m, iexp=0, nv=0), 1, 2))
    for loc in (1, 2):
        res.append((kind('2414', an=1, loc=loc, m=3, iexp=1, nv=1), 1, 2))
    res.append((kind('2412', legacy=False), 1, 2))
    res.append((kind('2429'), 4, 1))
    res.append((kind('2467'), 2, 1))
    return res


def fill(g, sh, n):
    """a data-set of n rows, and its name of the rows"""
    t = sh['t']
    if t == '2412':
        d = g.make(dict(sh, el=[[44, 4]] * n))
    elif t in ('2429', '2467'):
        d = g.make(dict(sh, ent=[n]))
    else:
        d = g.make(dict(sh, n=n), 'all')
    return d


def rows(d):
    """names of the lists with one member per row"""
    return {15: ['node_nums', 'def_cs', 'disp_cs', 'color', 'x', 'y', 'z'], 2411: ['node_nums', 'def_cs', 'disp_cs', 'color', 'x', 'y', 'z'],
            18: ['cs_num', 'cs_type', 'ref_cs_num', 'color', 'method', 'cs_name', 'ref_o', 'x_point', 'xz_point'],
            55: ['node_nums', 'r1', 'r2', 'r3', 'r4', 'r5', 'r6'], 58: ['x', 'data'], 82: ['nodes'],
            2414: ['node_nums', 'x', 'y', 'z', 'data_at_node', 'element_nums', 'data_at_element', 'NDVAL'],
            2420: ['CS_sys_labels', 'CS_types', 'CS_colors', 'CS_names', 'CS_matrices'],
            2429: ['entity_type_code', 'entity_tag'], 2467: ['entity_type_code', 'entity_tag', 'entity_node_leaf_id', 'entity_component_id']}[d['type']]


def cut(d, a, b):
    """the data-set with the rows a..b only, and the lengths of the lists that were cut"""
    lens = {}

    def cutin(x, keys):
        x = dict(x)
        for k in keys:
            if k in x and not isinstance(x[k], (str, int, float)):
                lens[k] = len(x[k])
                x[k] = x[k][a:b]
        return x
    try:
        if d.get('type') == 2412:
            r = dict(d)
            for k in d:
                if isinstance(k, (int, np.integer)) and isinstance(d[k], list):
                    lens[str(k)] = len(d[k])
                    r[k] = d[k][a:b]
                elif k in ('triangle', 'quad') and isinstance(d[k], dict):
                    r[k] = cutin(d[k], ['element_nums', 'fe_descriptor', 'phys_table', 'mat_table', 'color', 'num_nodes', 'nodes_nums'])
            return r, lens
        if d.get('type') in (2429, 2467):
            return dict(d, groups=[cutin(x, rows(d)) for x in d['groups'][:1]]), lens
        return cutin(d, rows(d)), lens
    except Exception:
        return {}, {'unusable': -1}


def part(d, a, b, n, fd, whole):
    """window a..b of the data-set d of n rows, encoded"""
    w, _ = cut(d, a, b)
    e = enc.annotate(w, enc.dset(w), fd)
    if '$bo' in whole:
        e['$bo'] = whole['$bo']
    if d['type'] == 58:
        if d['abscissa_spacing']:
            e['$x0'], e['$dx'], e['$xr'] = ['n', enc.num(d['x'][0])], whole['$dx'], ['N', whole['$xr'][1][a:b]]
        e['$total'] = n
    elif d['type'] == 82:
        e['$total'] = n
    elif d['type'] in (2429, 2467):
        e['groups'][1][0]['$total'] = n
    return e


def abscissa(d):
    """of a whole 58: the step and the abscissae that a reader computes"""
    if d['type'] != 58 or not d['abscissa_spacing']:
        return {}
    return enc.annotate({k: d[k] for k in ('type', 'x', 'data', 'abscissa_spacing')}, {}, True)


def windows(g, n, period, size, rowbytes, headbytes, count):
    """[(a, b)]: rows where something may happen: powers of two, round numbers, where the file crosses usual buffers, anywhere, the ends"""
    marks = [2 ** k for k in range(7, 18)] + [1000, 5000, 10000, 50000, 65535, 99999, 100000]
    marks += [(2 ** k * m - headbytes) // rowbytes for k in (12, 13, 16, 17, 20) for m in (1, 2, 3)]
    marks = [m for m in marks if 0 < m < n]
    marks = g.r.sample(marks, min(len(marks), count)) + [g.r.randrange(n) for _ in range(2)]
    size = (size + period - 1) // period * period
    res = {0, (n - 1) // period * period}
    for m in marks:
        res.add(max(0, (m - size // 2) // period * period))
    return [(a, min(a + size, n)) for a in sorted(res)]


def sizes(ctx, sh):
    big = [4096, 4106, 8192, 8202, 12345, 65536, 65546, 70001]
    if sh['t'] in ('15', '58', '82', '2429', '2467'):
        return big if ctx.big else [4097, 8193]
    return [4096, 10001, 16385, 33000] if ctx.big else [2049]


def run(ctx, types, pick=lambda s: True):
    for sh, period, lines in kinds(ctx):
        if sh['t'] not in types or not pick(sh):
            continue
        for n in sizes(ctx, sh):
            n += ctx.gen('%s%d' % (sh, n)).r.choice([-1, 0, 0, 1, 7])
            tid = 'huge:%s:%d' % (','.join('%s' % v for v in sh.values()), n)
            if not ctx.wants(tid):
                continue
            g = ctx.gen(tid)
            t = ctx.trace(tid)
            t.new('a')
            before = g.flag()
            if before:
                t.write('a', [g.make({'t': '15', 'n': 2})])
            d = fill(g, sh, n)
            fd = g.fd(sh)
            vals = d.get('data')
            width = {58: 26, 15: 80}.get(d['type'], 40 * lines / period)
            w = windows(g, n, period, 24 if sh['t'] in ('58', '82', '2429', '2467') else 8, int(width) or 1, 200, 14 if ctx.big else 7)
            t.hwrite('a', d, n, period, lines, w, fd)
            if vals is not None:
                d['data'] = vals
            t.query('a')
            if g.flag():
                t.write('a', [g.make({'t': '164', 'n': 1})])
            o = 'a' if g.flag() else t.new('b')['o']
            t.query(o)
            t.hread(o, int(before), d, n, w, fd)
            if before:
                t.read(o, 0)
            ctx.add(t, 'huge', tid)


# ------------------------------------------------------------------ in the styles of other programs
def join(d, order, w):
    """the data-set whose rows are those of d in blocks of w, in that order"""
    def pick(v):
        ps = [v[i * w:(i + 1) * w] for i in order]
        return np.concatenate(ps) if isinstance(v, np.ndarray) else [x for p in ps for x in p]
    if d['type'] == 2412:
        return {k: pick(v) if isinstance(v, list) else v for k, v in d.items()}
    if d['type'] in (2429, 2467):
        return dict(d, groups=[{k: pick(v) if k in rows(d) else v for k, v in d['groups'][0].items()}])
    r = {k: pick(v) if k in rows(d) and np.ndim(v) else v for k, v in d.items()}
    if d['type'] == 58 and d['abscissa_spacing']:
        r['x'] = d['x'][0] + (d['x'][1] - d['x'][0]) * np.arange(len(order) * w)
    return r


def foreign(ctx, pick):
    """Files put together from blocks of rows that the specification rendered, in an order of their own."""
    import foreign as fo
    cases, meta = [], {}
    for sh, period, lines in kinds(ctx):
        if not pick(sh):
            continue
        for n in sizes(ctx, sh):
            tid = 'huge:%s:%d' % (','.join('%s' % v for v in sh.values()), n)
            g = ctx.gen(tid)
            bo = g.choice([1, 2])
            st = fo.style(g, bo=bo, gap=[])
            w = 24 if period > 1 else 8
            g.few = True
            d = fill(g, dict(sh, req=0) if sh['t'] == '58' else sh, 4 * w)
            g.few = False
            fd = True
            if d['type'] == 58:
                fd = False
                d['ord_data_type'] = (6 if sh['c'] else 4) if sh['fd'] else (5 if sh['c'] else 2)
            order = [0, 1, 2, 3] + [g.r.randrange(4) for _ in range(n // w - 4)]
            d = join(d, order, w)
            m = len(order) * w
            whole = abscissa(d)
            if sh.get('bin'):
                whole['$bo'] = ['n', enc.num(bo)]
            for i in range(4):
                cases.append({'id': '%s/%d' % (tid, i), 'blocks': [{'k': 'ok', 'd': part(d, i * w, (i + 1) * w, m, fd, whole), 'fd': fd, 'st': st}],
                              'final': True})
            meta[tid] = (sh, period, d, m, fd, order, whole)
    if ctx.only:
        cases = [c for c in cases if c['id'].startswith(ctx.only + '/')]
    if not cases:
        return
    parts = fo.render(ctx, cases)
    for tid, (sh, period, d, m, fd, order, whole) in meta.items():
        if not ctx.wants(tid):
            continue
        g = ctx.gen('r' + tid)
        ps = [parts['%s/%d' % (tid, i)]['parts'] for i in range(4)]
        h = HEAD[sh['t']]
        bodies = [[dict(x, e='') if x['h'] else x for x in p[h:-1]] for p in ps]
        end = [{'h': '', 't': '', 'e': ps[0][-2]['e']}] if sh.get('bin') else []
        bodies = [fo.build(b) for b in bodies]
        content = fo.build(ps[0][:h]) + b''.join(bodies[i] for i in order) + fo.build(end + ps[0][-1:])
        t = ctx.trace(tid)
        e = part(d, 0, 1, m, fd, whole)
        it = {'cls': 'ok', 'd': e, 'fd': fd}
        before = g.flag()
        f, fi = fo.filler(g, g.r.randint(80, 300))
        t.put((f if before else b'') + content, ([fi] if before else []) + [it])
        t.new('a')
        t.query('a')
        t.hread('a', int(before), d, m, windows(g, m, period, 24 if period > 1 else 8, max(1, len(content) // m), 200, 14 if ctx.big else 7), fd, whole)
        ctx.add(t, 'huge', tid)
