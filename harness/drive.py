"""Runs operations on the real UFF class inside a scratch directory and records them as events."""
import contextlib
import copy
import hashlib
import io
import os
import random
import shutil
import signal
import sys
import time
import warnings

import numpy as np

warnings.simplefilter('ignore')
sys.path.insert(0, os.environ.get('PYUFF_REPO', '/repo'))
import pyuff  # noqa: E402
warnings.simplefilter('ignore')

import enc  # noqa: E402
import huge  # noqa: E402


# base name and extension of the files given to fix_58b
NAMES = [('orig.v1', '.uff'), ('plain', ''), ('a.uff.d/b', '.uff'), ('BIG', '.UFF'), ('.secret', ''), ('dir.v1/plain', ''), ('uff', '.uff'),
         ('two words', '.unv'), ('a_fixed', '.uff'), ('d.uff/x.uff.uff', '.uff'), ('größe', '.58b')]


# names of the universal file of a trace
FILES = ['file.uff'] * 6 + ['noextension', 'two words.unv', 'UPPER.UFF', 'blank at the end.uff ', ' x.uff', 'mérés-ž.uff', 'a.b.c.58b', '.hidden', '-1', 'sub dir/x.uff', 'file.uff.tmp', "it's.uff"]


class OpTimeout(BaseException):
    pass


def _alarm(sig, frm):
    raise OpTimeout()


@contextlib.contextmanager
def guarded(seconds=20):
    """Silences the code under test and limits its time."""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(seconds)
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            yield
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


timeouts = 0


def stuck():
    """Did the code fail to answer too often?"""
    return timeouts >= 4


def call(f, *a, **k):
    """(result, error text)"""
    global timeouts
    if stuck():
        return None, 'TIMEOUT'
    with warnings.catch_warnings(record=True) as said:
        warnings.simplefilter('ignore')
        warnings.simplefilter('always', ResourceWarning)
        try:
            with guarded(20 if timeouts == 0 else 6):
                return f(*a, **k), ''
        except OpTimeout:
            timeouts += 1
            return None, 'TIMEOUT'
        except Exception as e:
            return None, (type(e).__name__ + ': ' + str(e))
        finally:
            unclosed.extend(str(w.message) for w in said if issubclass(w.category, ResourceWarning))


unclosed = []                                # files that were not closed but lost


def files(top):
    return {os.path.join(a, f) for a, _, b in os.walk(top) for f in b}


def openfiles(top):
    """Number of files below top that this process has open."""
    n = 0
    for f in os.listdir('/proc/self/fd'):
        try:
            n += os.readlink('/proc/self/fd/' + f).startswith(top + '/')
        except OSError:
            pass
    return n


def sha(b):
    return hashlib.sha1(b).hexdigest()[:16]


def digest(b):
    return [len(b), sha(b)]


def fileinfo(path):
    if not os.path.exists(path):
        return {'ex': False, 'len': 0, 'sha': '', 'open': False}, b''
    with open(path, 'rb') as f:
        b = f.read()
    return {'ex': True, 'len': len(b), 'sha': sha(b), 'open': b[-1:] not in (b'', b'\r', b'\n')}, b


def raw(b, binary):
    """The bytes written for one data-set, for the layout clauses."""
    if binary:
        pos = 0
        for _ in range(13):
            n = b.find(b'\n', pos)
            if n < 0:
                break
            pos = n + 1
        head = b[:pos].decode('utf-8', 'replace').split('\n')
        if head and head[-1] == '':
            head.pop()
        return {'head': head, 'hex': b[pos:].hex()}
    lines = b.decode('utf-8', 'replace').split('\n')
    if lines[-1] == '':
        lines.pop()
    else:
        lines.append('<no line end>')
    return {'lines': lines}


def scribble(v):
    """The caller goes on working with what it got or gave: nothing of it may matter to the file later."""
    if isinstance(v, np.ndarray):
        if v.flags.writeable and v.dtype.kind in 'iufc':
            v[...] = 77
    elif isinstance(v, (dict, list)):
        for x in list(v.values() if isinstance(v, dict) else v):
            scribble(x)
        v.clear()


def _arrays(d, path=''):
    """(where, object, copy) of the arrays and lists in a data-set."""
    res = []
    for k, v in (d.items() if isinstance(d, dict) else enumerate(d)):
        if isinstance(v, (np.ndarray, list)):
            res.append(('%s/%s' % (path, k), v, copy.deepcopy(v)))
    return res


def _same(a, b):
    return enc.canon(_nodict(a)) == enc.canon(_nodict(b))


def _nodict(v):
    # groups get their defaults in place; everything else of a list must stay
    if isinstance(v, list) and any(isinstance(x, dict) for x in v):
        return [len(v)]
    return v


def clock():
    t = time.localtime()
    return [time.strftime('%d-%b-%y', t), time.strftime('%H:%M:%S', t)]


class frozen:
    """No second passes inside."""
    names = ('time', 'localtime', 'gmtime', 'strftime', 'ctime', 'asctime')

    def __enter__(self):
        self.old = {n: getattr(time, n) for n in self.names}
        now, o = self.old['time'](), self.old
        time.time = lambda: now
        time.localtime = lambda s=None: o['localtime'](now if s is None else s)
        time.gmtime = lambda s=None: o['gmtime'](now if s is None else s)
        time.ctime = lambda s=None: o['ctime'](now if s is None else s)
        time.strftime = lambda f, t=None: o['strftime'](f, o['localtime'](now) if t is None else t)
        time.asctime = lambda t=None: o['asctime'](o['localtime'](now) if t is None else t)

    def __exit__(self, *a):
        for n in self.names:
            setattr(time, n, self.old[n])


class Trace:
    """One universal file, several UFF objects, the events recorded on them."""

    def __init__(self, tid, scratch, name=None):
        self.id = tid
        self.order = random.Random(tid)      # the order in which queries ask, the forms of calls
        self.dir = os.path.join(scratch, 'w')
        os.chdir(scratch)
        shutil.rmtree(self.dir, ignore_errors=True)
        self.path = os.path.join(self.dir, name or self.order.choice(FILES))
        os.makedirs(os.path.dirname(self.path))
        os.chdir(self.dir)
        # the name given to the code
        self.name = self.path if self.order.random() < .6 else self.order.choice(['', './']) + os.path.relpath(self.path, self.dir)
        self.objs = {}
        self.ev = []
        self.note = {}
        self.last_read = None

    def out(self):
        return {'id': self.id, 'ev': self.ev}

    def add(self, ev):
        if ev['op'] in ('new', 'refresh', 'query', 'write', 'read', 'fix', 'odd', 'hwrite', 'hread'):
            # what the call left behind
            ev['left'] = sorted(os.path.basename(f) for f in files(self.dir) - {self.path})
            ev['open'] = len(unclosed) + openfiles(self.dir)
            unclosed.clear()
        if ev['op'] in ('new', 'refresh', 'write', 'read') and ev['o'] in self.objs:
            st, err = call(self.objs[ev['o']].get_status)
            ev['st'] = bool(st)
        self.ev.append(ev)
        return ev

    # ---- operations
    def new(self, o):
        u, err = call(pyuff.UFF, self.name) if self.order.random() < .8 else call(pyuff.UFF, **{self.order.choice(['filename', 'fileName']): self.name})
        if u is not None:
            self.objs[o] = u
        return self.add({'op': 'new', 'o': o, 'err': err})

    def refresh(self, o):
        r, err = call(self.objs[o].refresh)
        return self.add({'op': 'refresh', 'o': o, 'err': err, 'ret': bool(r)})

    def query(self, o):
        u = self.objs[o]

        ask = [('n', u.get_n_sets), ('t', u.get_set_types), ('m', u.get_set_formats)]
        about = {'name': False, 'there': False, 'sup': []}
        self.order.shuffle(ask)

        def f():
            st0 = u.get_status()
            a = {k: q() for k, q in ask}
            r = {'st0': bool(st0), 'n': int(a['n']), 'types': ['%d' % x for x in a['t']], 'fmts': ['%d' % x for x in a['m']],
                    'st1': bool(u.get_status()), 'first': ask[0][0]}
            # what was returned belongs to the caller
            scribble([a['t'], a['m']])
            return r

        def g():
            sup = u.get_supported_sets()
            r = {'name': u.get_file_name() == self.name, 'there': bool(u.file_exists()), 'sup': sorted(map(str, sup))}
            scribble(sup)
            return r
        a, err = call(g)
        about = a or about
        r, err = call(f)
        return self.add(dict({'op': 'query', 'o': o, 'err': err, 'about': about},
                             **(r or {'st0': False, 'n': -1, 'types': [], 'fmts': [], 'st1': False})))

    def write(self, o, dsets, mode='add', fd=True, uw=(), bare=None, spoil=False):
        """dsets: list of dictionaries (given to the code as they are)."""
        if any(isinstance(d, dict) and d.get('type') == 151 for d in dsets) and time.time() % 1 > .9:
            # nor do they pass for clocks that cannot be stopped (datetime)
            time.sleep(1 - time.time() % 1)
        with frozen():
            ev = self._write(self.objs[o], o, dsets, mode, fd, uw, bare)
        if spoil:
            for d in dsets:
                scribble(d)
        return ev

    def _write(self, u, o, dsets, mode, fd, uw, bare):
        items = []
        for k, d in enumerate(dsets):
            e = enc.annotate(d, enc.dset(d), fd) if isinstance(d, dict) else {}
            items.append({'d': e, 'uw': k in uw, 'mut': [], 'clock': [clock()]})
        arrays = [_arrays(d) for d in dsets]
        # what each data-set alone adds to a file
        solo = []
        if len(dsets) > 1:
            for d in dsets:
                p = self.path + '.solo'
                if os.path.exists(p):
                    os.remove(p)
                _, err = call(lambda: pyuff.UFF(p).write_sets(copy.deepcopy(d), mode='add', force_double=fd))
                solo.append(fileinfo(p)[1] if not err else b'')
            if os.path.exists(p):
                os.remove(p)
        pre, preb = fileinfo(self.path)
        arg = dsets[0] if (len(dsets) == 1 and bare in (None, True)) else list(dsets)
        kw = {'mode': mode, 'force_double': fd}
        if mode == 'add' and self.order.random() < .3:
            del kw['mode']
        if fd and self.order.random() < .3:
            del kw['force_double']
        if len(dsets) == 1 and fd and hasattr(u, '_write_set') and self.order.random() < .15:
            # the way the examples of the documentation write single data-sets
            _, err = call(u._write_set, dsets[0], mode)
        elif len(kw) == 2 and self.order.random() < .3:
            _, err = call(u.write_sets, arg, mode, fd)
        else:
            _, err = call(u.write_sets, arg, **kw)
        post, postb = fileinfo(self.path)
        post['psha'] = sha(postb[:pre['len']])
        add = mode.lower() == 'add'
        new = postb[pre['len']:] if add else postb
        # a line end for the line that the file ended in
        sep = new[:len(new) - len(new.lstrip(b'\r\n'))].decode() if add and pre['open'] else ''
        new = new[len(sep):]
        if len(dsets) == 1:
            solo = [new]
        cats = [digest(b'')]
        acc = b''
        for s in solo:
            acc += s
            cats.append(digest(acc))
        for k, d in enumerate(dsets):
            it = items[k]
            it['after'] = enc.dset(d)
            it['mut'] = [w for w, ob, cp in arrays[k] if not _same(ob, cp)]
            it['clock'].append(clock())
            it['raw'] = raw(solo[k], d.get('type') == 58 and bool(d.get('binary')))
        if isinstance(arg, list) and not (len(arg) == len(dsets) and all(a is b for a, b in zip(arg, dsets))):
            items[0]['mut'].append('the list')
        return self.add({'op': 'write', 'o': o, 'mode': mode.lower() if mode.lower() in ('add', 'overwrite') else 'unknown',
                         'fd': bool(fd), 'items': items, 'err': err, 'pre': pre, 'post': post, 'new': digest(new), 'sep': sep, 'cats': cats})

    def read(self, o, sel=None, ho=False, keep=False):
        u = self.objs[o]
        pre, _ = fileinfo(self.path)
        p = self.order.random()
        if sel is not None and not isinstance(sel, list) and self.order.random() < .3:
            sel = np.int64(sel)
        if sel is None:
            s = {'k': 'all', 'ix': []}
        else:
            s = {'k': 'list', 'ix': [int(x) for x in sel]} if isinstance(sel, list) else {'k': 'one', 'ix': [int(sel)]}
        given = list(sel) if isinstance(sel, list) else None
        if p < .2 and not ho:
            r, err = call(u.read_sets) if sel is None else call(u.read_sets, sel)
        elif p < .4:
            r, err = call(u.read_sets, setn=sel, header_only=ho)
        elif p < .6:
            r, err = call(u.read_sets, sel, ho)
        else:
            r, err = call(u.read_sets, header_only=ho) if sel is None else call(u.read_sets, sel, header_only=ho)
        post, _ = fileinfo(self.path)
        bare = isinstance(r, dict)
        sets = [r] if bare else (r or [])
        self.last_read = sets if not err and keep else None
        es = []
        for d in sets:
            es.append({'r': enc.dset(d), 'fpf': enc.fp(d),
                       'fph': enc.fp({k: v for k, v in d.items() if d.get('type') != 58 or k not in ('x', 'data')})})
        if not keep:
            for d in sets:
                scribble(d)
        return self.add({'op': 'read', 'o': o, 'sel': s, 'ho': bool(ho), 'err': err, 'bare': bare, 'sets': es,
                         'arg': given is None or (len(sel) == len(given) and all(a is b for a, b in zip(sel, given))),
                         'pre': pre, 'post': post})

    def odd(self, o, g):
        """A call with arguments that make no sense."""
        pre, _ = fileinfo(self.path)
        f, args, what = g.choice([('read_sets', (x,), 'read') for x in (.5, 'first', [None], [0, 'x'], float('nan'), {}, [[]])] +
                                 [('write_sets', x, 'write') for x in ((None,), (7,), ('text',), ([None],), ([3, 4],), (['type'],), (np.zeros(3),),
                                                                       ({'type': 15}, None), ([{'type': 82}], 5), ([], 'overwrite'), ([],))])
        _, err = call(getattr(self.objs[o], f), *args)
        post, _ = fileinfo(self.path)
        return self.add({'op': 'odd', 'what': what, 'args': repr(args), 'err': err, 'pre': pre, 'post': post})

    def put(self, content, blocks, unseen=False):
        """The file gets other content from outside; blocks: its description; unseen: its time stamp stays."""
        st = os.stat(self.path) if unseen and os.path.exists(self.path) else None
        with open(self.path, 'wb') as f:
            f.write(content)
        if st:
            os.utime(self.path, ns=(st.st_atime_ns, st.st_mtime_ns))
        return self.add({'op': 'put', 'blocks': blocks})

    def bytes(self):
        return fileinfo(self.path)[1]

    def same(self, reads, contents):
        """Generations of a file: what was read from each, and their bytes."""
        return self.add({'op': 'same', 'r': [enc.fp(r) for r in reads], 'b': [digest(b) for b in contents]})

    def conv(self, dsets):
        """convert_dataset_2412_to_82; returns its result"""
        before = enc.canon(dsets)
        from pyuff import tools
        out, err = call(tools.convert_dataset_2412_to_82, dsets)
        self.add({'op': 'conv', 'err': err, 'in': [enc.dset(d) for d in dsets], 'out': [enc.dset(d) for d in out or []],
                  'same': before == enc.canon(dsets)})
        return out or []

    def sample(self, d, err, lines):
        """A data-set of a sample file as it was read, and its records."""
        e = {}
        if d is not None:
            e = enc.annotate(d, enc.dset(d), False)
            if d.get('type') == 58 and 'abscissa_inc' in d:
                e['$dx'], e['$x0'] = e['abscissa_inc'], e['abscissa_min']
        return self.add({'op': 'sample', 'd': e, 'err': err, 'lines': lines})

    def doc(self, n):
        """get_structure_n, returned and printed"""
        f = getattr(pyuff, 'get_structure_' + n, None)
        said = io.StringIO()

        def show():
            with contextlib.redirect_stdout(said):
                return f()
        raw, err = call(lambda: f(raw=True))
        r, err2 = call(show)
        return self.add({'op': 'doc', 'fn': n, 'err': err or err2, 'raw': raw if isinstance(raw, str) else '', 'out': said.getvalue(),
                         'ret': r is not None})

    def prep(self, fn, kw, cls, full):
        """prepare_fn(**kw); cls: classes of the values"""
        if fn.startswith('group'):
            f = pyuff.prepare_group if fn == 'group2429' else pyuff.datasets.dataset_2467.prepare_group
        else:
            f = getattr(pyuff, 'prepare_' + fn)
        before = {k: enc.canon(v) for k, v in kw.items()}
        given = {k: [cls[k], enc.val(v)] for k, v in kw.items()}
        r, err = call(f, **kw) if not full and self.order.random() < .3 else call(f, return_full_dict=full, **kw)
        ret = r if isinstance(r, dict) else {}
        self.add({'op': 'prep', 'fn': fn, 'full': full, 'given': given, 'err': err,
                  'ret': {str(k): enc.val(v) for k, v in ret.items() if v is not None},
                  'none': sorted(str(k) for k, v in ret.items() if v is None),
                  'mut': sorted(k for k, v in kw.items() if enc.canon(v) != before[k])})
        return None if err else r

    def fix(self, content, want, named=False):
        """fix_58b on a file with the content; want: the bytes it may have. The file becomes the fixed one."""
        base, ext = NAMES[len(content or b'') % len(NAMES)]
        src = os.path.join(self.dir, base + ext)
        std = os.path.join(self.dir, base + '_fixed' + ext)
        dst = os.path.join(self.dir, 'named file.uff') if named else std
        os.makedirs(os.path.dirname(src), exist_ok=True)
        for f in (src, std, dst):
            if os.path.exists(f):
                os.remove(f)

        fix = pyuff.datasets.dataset_58.fix_58b
        ev = {'op': 'fix', 'there': content is not None, 'err': '', 'before': digest(content or b''), 'want': [digest(w) for w in want or [b'']]}
        if content is not None:
            with open(src, 'wb') as f:
                f.write(content)
        before = files(self.dir)
        short = os.path.relpath if self.order.random() < .3 else str
        if named and self.order.random() < .5:
            _, ev['err'] = call(fix, short(src), fixed_filename=short(dst))
        else:
            _, ev['err'] = call(fix, short(src), *([short(dst)] if named else []))
        made = files(self.dir) - before
        ev['made'] = bool(made)
        ev['names'] = made == {dst}
        ev['after'] = digest(fileinfo(src)[1])
        got = fileinfo(dst)[1]
        ev['got'] = digest(got)
        if os.path.exists(dst):
            twice = os.path.join(self.dir, 'twice')
            call(fix, dst, twice)
            ev['again'] = digest(fileinfo(twice)[1])
            if os.path.exists(twice):
                os.remove(twice)
        else:
            ev['again'] = digest(b'')
        for f in (src, std, dst):
            if os.path.exists(f):
                os.remove(f)
        self.add(ev)
        return got

    # ---- very large data-sets, judged in windows (huge.py)
    def hwrite(self, o, d, n, period, lines, wins, fd, mode='add'):
        pre, _ = fileinfo(self.path)
        before = copy.deepcopy(d)
        whole = huge.abscissa(d)
        parts = [huge.part(d, a, b, n, fd, whole) for a, b in wins]
        _, err = call(self.objs[o].write_sets, d, mode=mode, force_double=fd)
        post, postb = fileinfo(self.path)
        post['psha'] = sha(postb[:pre['len']])
        new = postb[pre['len']:] if mode == 'add' else postb
        items = []
        if d['type'] == 58 and d.get('binary'):
            r = raw(new[:2000], True)
            pos = len(new[:2000]) - len(r['hex']) // 2
            size = (2 if np.iscomplexobj(d['data']) else 1) + (0 if d['abscissa_spacing'] else 1)
            size *= 8 if fd or before['ord_data_type'] in (4, 6) else 4
            for (a, b), e in zip(wins, parts):
                items.append({'d': e, 'raw': {'head': r['head'], 'hex': (new[pos + a * size:pos + b * size] + new[pos + n * size:][:40]).hex()}})
        else:
            ls = new.decode('utf-8', 'replace').split('\n')
            if ls[-1] == '':
                ls.pop()
            h = huge.HEAD[str(d['type'])]
            for (a, b), e in zip(wins, parts):
                i, j = h + a // period * lines, h + b // period * lines
                items.append({'d': e, 'raw': {'lines': ls[:h] + (ls[i:i + 300] if b == n else ls[i:j] + ls[-1:])}})
        # modal_a and modal_b are complex afterwards
        free = ('data', 'ord_data_type', 'abscissa_min', 'n_bytes', 'num_pts', 'modal_a', 'modal_b')
        same = {k: enc.canon(_nodict(v)) for k, v in before.items() if k not in free} == \
            {k: enc.canon(_nodict(d.get(k))) for k in before if k not in free}
        return self.add({'op': 'hwrite', 'o': o, 'fd': bool(fd), 'mode': mode, 'err': err, 'pre': pre, 'post': post, 'items': items, 'same': same})

    def hread(self, o, idx, d, n, wins, fd, whole=None):
        """d: the data-set in the file"""
        whole = whole or huge.abscissa(d)
        r, err = call(self.objs[o].read_sets, idx)
        items, lens = [], {}
        for a, b in wins if isinstance(r, dict) else []:
            e = huge.part(d, a, b, n, fd, whole)
            w, lens = huge.cut(r, a, b)
            items.append({'d': e, 'r': enc.dset(w)})
        return self.add({'op': 'hread', 'o': o, 'fd': bool(fd), 'err': err, 'total': n, 'items': items, 'lens': lens, 'bare': isinstance(r, dict)})

    def delete(self):
        if os.path.exists(self.path):
            os.remove(self.path)
        return self.add({'op': 'del'})

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)
