"""Scenarios of every property: what is run on the real code and which clauses decide it."""
import json

LEVEL = 'model_checking'
ASSUMPTIONS = ['CPython/numpy arithmetic and float formatting are taken as given; decimal digits are compared by the specification',
               'values lie in the domain described in DESIGN.md (widths of columns, two-digit exponents, texts without control characters)']
TYPES = ['15', '18', '55', '58', '82', '151', '164', '1858', '2400', '2411', '2412', '2414', '2420', '2429', '2467']
LARGE = [t for t in TYPES if t not in ('151', '164', '1858', '2400')]
TEXT_TYPES = [t for t in TYPES if t != '58']


def sname(sh):
    return json.dumps(sh, sort_keys=True).replace('"', '').replace(' ', '').replace(',', '|')


def thin(ctx, items, n):
    """At most n of the items, chosen with the seed."""
    if len(items) <= n:
        return items
    r = ctx.gen('thin').r
    keep = set(r.sample(range(len(items)), n))
    return [x for i, x in enumerate(items) if i in keep]


# ------------------------------------------------------------------ round trips
def roundtrip(ctx, types, reps, pick=None, cap=None):
    def of(t, which):
        if len(types) > 2:
            return [x for x in ctx.shapes('all', which) if x['t'] == t]
        return ctx.shapes(t, which)
    shapes = []
    for t in types:
        s = [x for x in of(t, 'usual') if pick is None or pick(x)]
        shapes += thin(ctx, s, cap) if cap else s
    large = []
    for t in types:
        s = [x for x in of(t, 'large') if pick is None or pick(x)] if t in LARGE else []
        large += s if ctx.big else thin(ctx, s, 2 if cap else 24)
    for k in range(reps):
        for sh in shapes + (large if k == 0 else []):
            tid = '%s#%d' % (sname(sh), k)
            if not ctx.wants(tid):
                continue
            g = ctx.gen(tid)
            t = ctx.trace(tid)
            t.new('a')
            d = g.make(sh)
            fd = g.fd(sh)
            if g.flag(.5):
                # not alone in the file: the same type again, or another one before
                t.write('a', [g.make({'t': '15', 'n': 1}) if g.flag() else g.make(sh)], fd=fd)
            mode = 'overwrite' if g.flag(.2) else 'add'
            if g.flag(.25):
                t.write('a', [d, g.make(sh)], mode=mode, fd=fd, spoil=g.flag())
            else:
                t.write('a', [d], mode=mode, fd=fd, spoil=g.flag())
            if g.flag(.3):
                t.new('b')
                t.read('b')
            else:
                t.read('a')
            if sh['t'] == '58' and g.flag(.5):
                t.read('a', [0], ho=True)
            t.query('a')
            ctx.add(t, sh['t'], sname(sh))


def rt(types, quick, big, pick=None, cap=None):
    def run(ctx):
        roundtrip(ctx, types, big if ctx.big else quick, pick, None if ctx.big else cap)
        import huge
        huge.run(ctx, types, pick or (lambda s: True))
    return run


DATA = ('write:raised', 'write:not refused', 'write:file changed', 'write:no file', 'write:content', 'write:earlier bytes', 'query:', 'read:',
        'new:', 'outside')
LAYOUT = ('layout:', 'outside')

PROPS = {
    'P06': dict(run=rt(['58'], 6, 20, lambda s: not s['bin']), clauses=DATA + ('layout:58:9', 'outside')),
    'P07': dict(run=rt(['58'], 6, 20, lambda s: s['bin']), clauses=DATA + ('layout:58:2', 'layout:58:99', 'layout:58:98', 'layout:58:0')),
    'P09': dict(run=rt(['55'], 10, 60), clauses=DATA),
    'P10': dict(run=rt(['2414'], 5, 12), clauses=DATA),
    'P11': dict(run=rt(['15', '2411'], 40, 150), clauses=DATA),
    'P12': dict(run=rt(['18', '2420'], 60, 200), clauses=DATA),
    'P13': dict(run=rt(['82', '2412'], 2, 20), clauses=DATA),
    'P14': dict(run=rt(['2429', '2467'], 4, 20), clauses=DATA),
    'P15': dict(run=rt(['151', '164', '1858', '2400'], 150, 1500), clauses=DATA),
    'P16': dict(run=rt(TYPES, 1, 6, cap=90), clauses=LAYOUT),
}


# ------------------------------------------------------------------ the store
def small_shapes(ctx):
    """a few small shapes of every type"""
    by = {}
    for s in ctx.shapes('all'):
        if s.get('n', 0) <= 4 and len(s.get('el', [])) <= 2 and sum(s.get('ent', [0])) <= 6:
            by.setdefault(s['t'], []).append(s)
    return {t: thin(ctx, v, 40) for t, v in by.items()}


def pool(ctx, shapes, n, kinds=('ok', 'ok', 'ok', 'unsup', 'bad')):
    """rendered blocks of other programs: [(bytes, description)]"""
    import foreign
    g = ctx.gen('pool')
    cases, items = [], []
    types = sorted(shapes)
    # damaged ones of every type
    more = [('hurt', t) for t in types for _ in range(12 if t == '58' else 3)] if 'hurt' in kinds else []
    n += len(more)
    for i in range(n):
        k, typ = more[i] if i < len(more) else (g.choice(kinds), types[i % len(types)])
        if k in ('ok', 'hurt'):
            sh = g.choice(shapes[typ])
            b, it = foreign.block(g, sh)
            if k == 'hurt':
                it = {'cls': 'bad', 'type': sh['t'], 'fmt': str(int(bool(sh.get('bin')))), 'hurt': True}
        else:
            b, it = (foreign.unsup if k == 'unsup' else foreign.bad)(g)
        cases.append({'id': str(i), 'blocks': [b], 'final': True})
        items.append(it)
    parts = foreign.render(ctx, cases)
    res = []
    for i in range(n):
        b, it = foreign.build(parts[str(i)]['parts']), dict(items[i], key='pool%d' % i)
        if it.pop('hurt', False):
            b = foreign.damage(g, b, it['fmt'])
        res.append((b, it))
    return res


def storewalks(want, quick, big, length=30):
    """quick, big: (kinds, blocks, items, read indices, repetitions)"""
    def run(ctx):
        import store
        kinds, nb, ni, ix, reps = big if ctx.big else quick
        ctx.model('UffStore', store.MODEL_CFG % (kinds, nb, ni, ix))
        init, adj = store.graph(ctx, kinds, nb, ni, ix)
        shapes = small_shapes(ctx)
        pl = pool(ctx, shapes, 200 if ctx.big else 90)
        n = 0
        for k in range(reps):
            for w in store.walks(init, adj, want, ctx.gen('walks%d' % k).r, length):
                tid = 'walk%d' % n
                n += 1
                if not ctx.wants(tid):
                    continue
                t = ctx.trace(tid)
                store.Concrete(ctx, ctx.gen(tid), shapes, pl).run(t, w)
                ctx.add(t, 'walk', '%d operations' % len(w))
    return run


def both(*fs):
    def run(ctx):
        for f in fs:
            f(ctx)
    return run


def op_is(*ops):
    return lambda l: l['op'] in ops


def is_bad(l):
    return l['op'] in ('write', 'unknown') and any(i['cls'] == 'bad' for i in l['items'])


ONE, TWO = '{"a"}', '{"a","b"}'
PROPS.update({
    'P02': dict(run=storewalks(lambda l: l['op'] in ('write', 'unknown') and not is_bad(l), (ONE, 3, 2, '{0}', 1), (ONE, 4, 3, '{0}', 1)),
                clauses=('write:', 'query:number', 'query:types', 'read:number', 'outside')),
    'P03': dict(run=lambda ctx: both(storewalks(lambda l: not is_bad(l), (ONE, 2, 1, '{0,1}', 1), (TWO, 2, 1, '{0,1}', 2)), scen.twins)(ctx),
                clauses=('query:', 'refresh:', 'new:', 'write:status', 'read:status', 'read:number', 'read:missing', 'read:not refused', 'read:raised', 'read:bare', 'outside')),
    'P04': dict(run=lambda ctx: both(storewalks(op_is('read'), (TWO, 2, 1, '{0,1,2}', 1), (TWO, 3, 1, '{0,1,2,3}', 1)), scen.crowd)(ctx), clauses=('read:', 'query:', 'outside')),
    'P05': dict(run=lambda ctx: both(storewalks(is_bad, (ONE, 2, 2, '{0}', 2), (ONE, 3, 3, '{0}', 3)), scen.faults)(ctx), clauses=('write:', 'query:', 'read:', 'outside')),
})


# ------------------------------------------------------------------ the other scenarios
import scen  # noqa: E402

ALLREAD = ('read:', 'query:', 'new:', 'outside')
PROPS.update({
    'P01': dict(run=scen.framing, clauses=('query:', 'new:', 'read:number', 'read:raised', 'write:raised', 'write:content', 'outside')),
    'P08': dict(run=scen.foreign58b, clauses=ALLREAD),
    'P17': dict(run=scen.foreigntext, clauses=ALLREAD),
    'P18': dict(run=scen.defaults, clauses=('after', 'write:', 'layout:', 'read:', 'outside')),
    'P19': dict(run=scen.prepares, clauses=('prep:', 'write:raised', 'write:content', 'read:', 'outside')),
    'P20': dict(run=scen.generations, clauses=('again:', 'write:raised', 'read:', 'after', 'outside')),
    'P21': dict(run=scen.fixes, clauses=('fix:',) + ALLREAD),
    'P22': dict(run=scen.conversions, clauses=('conv:', 'write:raised', 'read:82', 'read:raised', 'outside')),
    'P23': dict(run=scen.nonfinite, clauses=('layout:58', 'read:', 'write:', 'query:', 'outside')),
    'P24': dict(run=scen.isolation, clauses=ALLREAD),
    'P25': dict(run=scen.leftovers, clauses=('left:', 'outside')),
    'P26': dict(run=scen.about, clauses=('about:', 'write:', 'query:types', 'query:number', 'read:unsupported', 'read:raised', 'read:number', 'outside')),
})
