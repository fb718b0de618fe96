"""Files of other programs: data-sets in random styles, rendered by spec/UffGen.tla."""
import json
import os

import enc
import tlc
from core import Machinery

GEN_CFG = 'SPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n'
UNSUP = [781, 2477, 1, 99, 999999, 3, 2410, 16]


# text after the type number (not a b in column 7) and lines between data-sets
AFTER = [' ', '  1', ' x', 'x', '1', '  58b', ' b', 'ab', '-1', '    -1x', '      ', '   164', ' Größe', '.5', '_1', '     1     2    11']
BETWEEN = ['', '', '   ', 'C comment', '        ', '* * *']


def style(g, **fix):
    s = {'ex': g.choice('eE'), 'mant': g.choice('110'), 'pad': g.choice(['none', '80', 'strip']), 'eol': g.choice(['lf', 'lf', 'crlf']),
         'dpad': g.flag(.25), 'omit': g.flag(.5), 'fill': g.flag(), 'bo': g.choice([1, 2]), 'up': g.choice('bB'), 'own': g.flag(),
         'left': g.flag(.15), 'ts': g.choice(AFTER) if g.flag(.25) else '', 'gap': [g.choice(BETWEEN) for _ in range(g.choice([0] * 8 + [1, 2]))]}
    s.update(fix)
    return s


DTYPES = ('2411', '2420', '164')


def block(g, sh, st=None):
    """A block of a supported type and its description."""
    st = dict(st or style(g))
    if sh['t'] in DTYPES and g.flag():
        st['ex'] = g.choice('Dd')
    g.few = True
    d = g.make(sh, 'all')
    g.few = False
    if d['type'] == 58 and g.flag():
        # functions that pyuff does not write
        d['func_type'] = g.r.randint(0, 27)
    if st['omit']:
        blank_tail(g, d)
    fd = False if d['type'] == 58 else True
    if d['type'] == 58:
        dbl = bool(sh['fd']) or sh['req'] in (4, 6)
        d['ord_data_type'] = (6 if dbl else 5) if sh['c'] else (4 if dbl else 2)
    r = enc.annotate(d, enc.dset(d), fd)
    if '$elems' in r and g.flag():
        # elements of different descriptors in any order
        g.r.shuffle(r['$elems'][1])
    if d['type'] == 58 and sh['bin']:
        r['$bo'] = ['n', enc.num(st['bo'])]
    return {'k': 'ok', 'd': r, 'fd': fd, 'st': st}, {'cls': 'ok', 'd': r, 'fd': fd}


def blank_tail(g, d):
    """some optional trailing fields get their default, so that they may be left out"""
    t = d['type']
    if t == 58:
        for a in ('abscissa', 'ordinate', 'orddenom', 'z_axis'):
            if g.flag():
                d[a + '_axis_units_lab'] = ''
                if g.flag():
                    d[a + '_axis_lab'] = ''
        if g.flag():
            ks = ['ref_dir', 'ref_node', 'ref_ent_name', 'rsp_dir', 'rsp_node', 'rsp_ent_name', 'load_case_id', 'ver_num', 'func_id']
            for k in ks[:g.r.randint(1, len(ks))]:
                d[k] = '' if 'name' in k else 0
    elif t == 151:
        for k in ['file_type', 'version_db2', 'version_db1'][:g.r.randint(0, 3)]:
            d[k] = 0
        for k in ('time_db_saved', 'time_file_written'):
            if g.flag():
                d[k] = ''
    elif t == 164:
        if g.flag():
            d['temp_mode'] = 0
            if g.flag():
                d['units_description'] = ''
    elif t == 2414 and d['analysis_type'] != 5:
        for r, n in ((10, 8), (11, 8), (12, 6), (13, 6)):
            for i in range(n, g.r.randint(1, n), -1):
                d['record%d_field%d' % (r, i)] = 0


RAW = ['some text', '', '        -1', '         1        -1', '-1', '   -1', '     -1', ' 1.00000e+00    -1', '    -10', '    -1x', '    -1 x',
       '%10i%10i' % (-1, -1), '         0         0         0         0         0         0         0        -1', 'Größe', '    58', '  2411',
       '    -2', '-    -1', '\t    -1']


def unsup(g, st=None):
    t = g.choice(UNSUP)
    st = dict(st or style(g))
    ls = [('%-6i' if st['left'] else '%6i') % t + st['ts']] + [g.choice(RAW) for _ in range(g.r.randint(0, 5))]
    return {'k': 'raw', 'ls': ls, 'st': st}, {'cls': 'unsup', 'type': str(t), 'fmt': '0'}


def bad(g, st=None, junky=True):
    if junky and g.r.random() < .3:
        return junk(g, st)
    t = g.choice([15, 18, 55, 58, 82, 151, 164, 1858, 2400, 2411, 2412, 2414, 2420, 2429, 2467])
    st = dict(st or style(g))
    ls = [('%-6i' if st['left'] else '%6i') % t + st['ts']] + [g.choice(RAW) for _ in range(g.r.randint(0, 14))]
    return {'k': 'raw', 'ls': ls, 'st': st}, {'cls': 'bad', 'type': str(t), 'fmt': '0'}


JUNK = ['   new', 'abc', '', '  5 8', '  5x', '     ', '58 a', '0x3a', '12.5', '- 1', '%6i', 'data-set', '  1e2']


def junk(g, st=None):
    """a block whose second line is not a number of type"""
    st = dict(st or style(g))
    ls = [g.choice(JUNK)] + [g.choice(RAW) for _ in range(g.r.randint(0, 5))] if g.r.random() < .9 else []
    return {'k': 'raw', 'ls': ls, 'st': st}, {'cls': 'bad', 'type': '?', 'fmt': '0'}


def damage(g, content, fmt):
    """A block with something wrong inside; its delimiters, its type and its amount of binary data stay."""
    r = g.r
    if fmt == '1':
        ls = content.split(b'\n')
        i = r.choice([7, 8, 8, 8, 9, 10, 11])
        if i < len(ls) - 2:
            l = bytearray(ls[i])
            if r.random() < .5:
                k = r.randrange(len(l) or 1)
                l[k:k + 6] = r.choice([b'999999', b'abcdef', b'      ', b'    -1', b'     7', b'1.0e+9'])[:max(0, len(l) - k)]
            else:
                l = bytearray(b'%10d%10d%10d' % (r.choice([0, 1, 3, 7, 99, -1, 2, 4, 5, 6]), r.choice([0, 1, 10 ** 6, -5]), r.choice([0, 1, 2])))
            ls[i] = bytes(l)
        return b'\n'.join(ls)
    eol = b'\r\n' if b'\r\n' in content else b'\n'
    ls = content.split(eol)
    n = len(ls)
    last = max(i for i in range(n) if ls[i].startswith(b'    -1'))
    first = next(i for i in range(n) if ls[i].startswith(b'    -1')) + 2
    body = ls[first:last]
    for _ in range(r.choice([1, 1, 2])):
        if not body:
            break
        i = r.randrange(len(body))
        p = r.randrange(7)
        if p == 0:
            del body[i]
        elif p == 1:
            body.insert(i, body[i])
        elif p == 2:
            body[i] = body[i][:r.randrange(len(body[i]) + 1)]
        elif p == 3:
            k = r.randrange(len(body[i]) + 1)
            body[i] = body[i][:k] + r.choice([b'x', b'999999', b' ', b'-', b'.', b'1e9', b'\xff', b'\t', b'    -1  9', b'nan']) + body[i][k:]
        elif p == 4:
            del body[i:]
        elif p == 5:
            j = r.randrange(len(body))
            body[i], body[j] = body[j], body[i]
        else:
            body[i] = b''.join(r.choice([bytes([c]), b'9', b'0', b'-']) if c in b'0123456789' and r.random() < .3 else bytes([c]) for c in body[i])
    body = [b'*' + l if l.rstrip().endswith(b'    -1') or l[:6] == b'    -1' else l for l in body]
    return eol.join(ls[:first] + body + ls[last:])


def filler(g, size, eol=b'\n'):
    """A block of an unsupported type of that many bytes, and its description."""
    t = g.choice(UNSUP)
    head, tail = b'    -1' + eol + b'%6i' % t + eol, b'    -1' + eol
    n = size - len(head) - len(tail)
    line = b'%-70s' % g.choice([b'filling text', b'         1         2        -1', b'1.00000e+00  2.00000e+00']) + eol
    k = max(0, n // len(line) - 1)
    rest = n - k * len(line)
    while rest > 0:
        # last lines, together of the size that is left
        m = rest if rest <= 78 else 40
        body = b'.' * (m - len(eol)) + eol if m >= len(eol) else b''
        tail = body + tail
        rest -= m
    return head + line * k + tail, {'cls': 'unsup', 'type': str(t), 'fmt': '0'}


EDGES = [512, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072, 262144, 1 << 20]


def far(g, content, items, p=.12):
    """Now and then the data-sets lie behind another one, across a size in which files are usually read."""
    if not g.flag(p):
        return content, items
    b, it = filler(g, max(60, g.choice(EDGES) - g.choice([g.r.randint(-6, 12), g.r.randint(0, len(content)), len(content) - g.r.randint(0, 12)])))
    return b + content, [it] + items


def build(parts, dropc=False):
    """bytes of a rendered file"""
    out = []
    for p in parts:
        out.append(bytes.fromhex(p['h']) if p['h'] else p['t'].encode('utf-8').replace('\ufffd'.encode(), b'\xff'))
        out.append(p['e'].encode())
    return b''.join(out)


def render(ctx, cases):
    """{id: parts}; cases: [{id, blocks, final}]"""
    res = {}
    for i in range(0, len(cases), 3000):
        part = cases[i:i + 3000]
        f = os.path.join(ctx.scratch, 'cases.ndjson')
        with open(f, 'w') as h:
            for c in part:
                h.write(json.dumps(c) + '\n')
        out, info = tlc.run('UffGen', GEN_CFG, ctx.scratch, env={'UFF_CASES': f}, workers=8)
        os.remove(f)
        if info['rc'] != 0:
            raise Machinery('UffGen: ' + out[-3000:])
        for x in tlc.lines(out, 'FILE'):
            res[x['id']] = x
        ctx.models.append({k: info.get(k) for k in ('module', 'generated', 'distinct', 'wall')})
    if len(res) != len(cases):
        raise Machinery('UffGen rendered %d of %d files' % (len(res), len(cases)))
    return res
