"""Values of data-sets as the tagged values of the specification (see spec/UffRecords.tla)."""
import hashlib
import struct
from decimal import Decimal

import numpy as np

MAX64 = 1.7976931348623157e308


def num(x):
    """'+12345678901234567E+003': sign, 17 digits, exponent; 'nan', '+inf', '-inf'."""
    if isinstance(x, (bool, np.bool_)):
        x = int(x)
    if isinstance(x, (int, np.integer)):
        x = int(x)
        if abs(x) < 10 ** 15:
            x = float(x)
            s = '%.16e' % x
        else:
            s = format(Decimal(x), '.16e')
    else:
        x = float(x)
        if x != x:
            return 'nan'
        if x in (float('inf'), float('-inf')):
            return '+inf' if x > 0 else '-inf'
        s = '%.16e' % x
    if s[0] != '-':
        s = '+' + s
    m, e = s[1:].split('e')
    return s[0] + m.replace('.', '') + 'E' + ('-' if e[0] == '-' else '+') + '%03d' % abs(int(e))


def _isnum(x):
    return isinstance(x, (int, float, bool, np.integer, np.floating, np.bool_))


def _iscplx(x):
    return isinstance(x, (complex, np.complexfloating))


def val(v):
    """Tagged value."""
    if v is None:
        return ['0', '']
    if isinstance(v, (str, np.str_)):
        return ['t', str(v)]
    if _isnum(v):
        return ['n', num(v)]
    if _iscplx(v):
        return ['c', [num(v.real), num(v.imag)]]
    if isinstance(v, dict):
        return ['D', dset(v, False)]
    if isinstance(v, np.ndarray):
        if v.ndim == 0:
            return val(v[()])
        k = v.dtype.kind
        if k == 'c':
            if v.ndim == 1:
                return ['C', {'re': [num(x) for x in v.real], 'im': [num(x) for x in v.imag]}]
            return ['?', repr(v)[:200]]
        if k in 'iufb':
            if v.ndim == 1:
                return ['N', [num(x) for x in v]]
            if v.ndim == 2:
                return ['M', [[num(x) for x in r] for r in v]]
            if v.ndim == 3:
                return ['MM', [[[num(x) for x in r] for r in m] for m in v]]
        return val(list(v))
    if isinstance(v, (list, tuple)):
        v = list(v)
        if not v:
            return ['N', []]
        if all(isinstance(x, (str, np.str_)) for x in v):
            return ['T', [str(x) for x in v]]
        if all(_isnum(x) for x in v):
            return ['N', [num(x) for x in v]]
        if all(_isnum(x) or _iscplx(x) for x in v):
            return ['C', {'re': [num(complex(x).real) for x in v], 'im': [num(complex(x).imag) for x in v]}]
        if all(isinstance(x, dict) for x in v):
            return ['E', [dset(x, False) for x in v]]
        sub = [val(x) for x in v]
        tags = {s[0] for s in sub}
        if tags == {'N'}:
            return ['M', [s[1] for s in sub]]
        if tags <= {'M', 'N'} and all(s[0] == 'M' or s[1] == [] for s in sub):
            return ['MM', [s[1] for s in sub]]
        return ['?', repr(v)[:200]]
    return ['?', repr(v)[:200]]


def elems2412(d):
    """Elements of a 2412 data-set in the order of the dictionary, with the key they stand under."""
    els, keys = [], []
    for k in d:
        if isinstance(k, (int, np.integer)) and isinstance(d[k], list):
            for e in d[k]:
                if isinstance(e, dict):
                    els.append(dset(e, False))
                    keys.append(num(k))
    return els, keys


def legacy_elems(d):
    """Elements given only under the legacy keys."""
    els = []
    for n, name in ((41, 'triangle'), (44, 'quad')):
        if name in d and n not in d:
            L = d[name]
            for i, nodes in enumerate(L['nodes_nums']):
                e = {k: L[k][i] for k in L if L[k] is not None and k not in ('type', 'nodes_nums', 'num_nodes')}
                e['num_nodes'] = len(nodes)
                e['nodes_nums'] = nodes
                els.append(dset(e, False))
    return els


def dset(d, top=True):
    """A dictionary; keys that are not text become '#key'."""
    r = {}
    for k, v in d.items():
        r[k if isinstance(k, str) else '#' + str(k)] = val(v)
    if top and d.get('type') == 2412:
        els, keys = elems2412(d)
        r['$elems'] = ['E', els]
        r['$keys'] = ['N', keys]
    return r


# ------------------------------------------------------------------ data-set 58
def _f32(a):
    with np.errstate(all='ignore'):
        return np.nan_to_num(np.asarray(np.nan_to_num(np.asarray(a, 'd')), dtype=np.float32))


def _hex64(a):
    return [struct.pack('>d', x).hex() for x in np.asarray(a, 'd')]


def _hex32(a):
    return [struct.pack('>f', x).hex() for x in a]


def annotate(d, r, force_double=True):
    """Adds to the encoded data-set r what has to be computed in floating point."""
    t = d.get('type')
    if t == 2412:
        r['$elems'] = ['E', r['$elems'][1] + legacy_elems(d)]
    if t != 58 or 'x' not in d or 'data' not in d:
        return r
    try:
        x = np.asarray(d['x'], 'd')
        data = np.asarray(d['data'])
        n = len(data)
        dx = float(x[1] - x[0]) if len(x) > 1 else 0.
        even = bool(d.get('abscissa_spacing', 0))
        if even:
            x6, d6 = float('%.5e' % x[0]), float('%.5e' % dx)
            r['$dx'] = ['n', num(dx)]
            r['$xr'] = ['N', [num(x6 + i * d6) for i in range(n)]]
        if d.get('binary'):
            double = force_double or d['ord_data_type'] in (4, 6)
            parts = {'re': data.real, 'im': data.imag if np.iscomplexobj(data) else [], 'x': x if not even else []}
            if double:
                r['$h64'] = {k: _hex64(v) for k, v in parts.items()}
            else:
                f = {k: _f32(v) for k, v in parts.items()}
                r['$h32'] = {k: _hex32(v) for k, v in f.items()}
                r['$f32'] = {k: [num(y) for y in v] for k, v in f.items()}
    except Exception:
        pass
    return r


def canon(v):
    """Canonical text of a value with its Python types (for 'unchanged' comparisons)."""
    if isinstance(v, dict):
        return '{' + ','.join('%r:%s' % (k, canon(x)) for k, x in v.items()) + '}'
    if isinstance(v, np.ndarray):
        return 'a%s%s%s' % (v.dtype.str, v.shape, [canon(x) for x in v] if v.dtype == object else v.tolist())
    if isinstance(v, (list, tuple)):
        return type(v).__name__ + '[' + ','.join(canon(x) for x in v) + ']'
    return type(v).__name__ + repr(v)


def fp(v):
    return hashlib.sha1(canon(v).encode('utf-8', 'replace')).hexdigest()[:16]
