"""Context of a check: records traces, has TLC judge them, writes the evidence."""
import json
import os
import shutil
import sys
import tempfile
import time

import tlc

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, 'evidence')
TRACE_CFG = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n'


class Machinery(Exception):
    """The check itself failed: no verdict."""


class Ctx:
    def __init__(self, prop, tier, seed, only=None):
        self.prop, self.tier, self.seed, self.only = prop, tier, seed, only
        self.scratch = tempfile.mkdtemp(prefix='uff_%s_' % prop)
        self.t0 = time.time()
        self.states = self.transitions = self.validated = self.events = 0
        self.models = []
        self.known = {}
        self.batch, self.batch_bytes = [], 0
        self.meta = {}
        self.fails = []          # (trace id, event index, clauses)
        self.samples = []
        self.kinds = {}
        self.big = tier == 'thorough'
        self.max_fail = 25
        self.outside = 0
        self.budget = 7200 if self.big else 420     # seconds for running the code under test
        self.cut = False

    # -------------------------------------------------------------- recording
    def gen(self, tid):
        import gen
        return gen.Gen('%d/%s/%s' % (self.seed, self.prop, tid))

    def trace(self, tid, name=None):
        import drive
        return drive.Trace(tid, self.scratch, name)

    def wants(self, tid):
        """Is the trace to be run?  Not if the code no longer answers, or takes too long."""
        drive = sys.modules.get('drive')
        if drive and drive.stuck() or time.time() - self.t0 > self.budget:
            self.cut = True
            return False
        return self.only is None or tid == self.only

    def add(self, t, kind='', note=None):
        """a recorded trace is queued for TLC"""
        o = t.out() if hasattr(t, 'out') else t
        line = json.dumps(o)
        if o['id'] in self.meta:
            raise Machinery('trace id used twice: ' + o['id'])
        self.meta[o['id']] = {'kind': kind, 'note': note}
        self.kinds[kind] = self.kinds.get(kind, 0) + 1
        self.events += len(o['ev'])
        if len(self.samples) < 3 or self.only:
            self.samples.append(summary(o, note))
        if self.only and os.environ.get('UFF_DUMP'):
            with open(os.environ['UFF_DUMP'], 'w') as h:
                json.dump(o, h)
        self.batch.append(line)
        self.batch_bytes += len(line)
        if len(self.batch) >= 1500 or self.batch_bytes > 24e6:
            self.flush()

    def flush(self):
        if not self.batch:
            return
        lines, self.batch, self.batch_bytes = self.batch, [], 0
        self._validate(lines)

    def _run(self, lines):
        f = os.path.join(self.scratch, 'traces.ndjson')
        with open(f, 'w') as h:
            h.write('\n'.join(lines) + '\n')
        out, info = tlc.run('UffTrace', TRACE_CFG, self.scratch, env={'UFF_TRACES': f})
        os.remove(f)
        done = {x['t'] for x in tlc.lines(out, 'DONE')}
        fails = {}
        for x in tlc.lines(out, 'FAIL'):
            fails[(x['t'], x['i'])] = x['f']
        return out, info, done, fails

    def _validate(self, lines):
        out, info, done, fails = self._run(lines)
        ids = [json.loads(l)['id'] for l in lines]
        if info['rc'] == 0 and len(done) == len(lines):
            self.states += info.get('distinct', 0)
            self.transitions += info.get('generated', 0) - len(lines)
            self.validated += len(lines)
            for (t, i), f in sorted(fails.items()):
                self.fails.append((t, i, sorted(f)))
                if self.only:
                    print(t, i, f)
            return
        if info['rc'] == 0:
            raise Machinery('TLC judged %d of %d traces' % (len(done), len(lines)))
        if 'TLC threw an unexpected exception' in out and 'OutOfMemory' in out or 'Java heap space' in out:
            raise Machinery('TLC: out of memory')
        # the specification cannot evaluate a trace: the code left its domain
        rest = [l for l, t in zip(lines, ids) if t not in done]
        if len(lines) == 1:
            self.outside += 1
            self.fails.append((ids[0], 0, ['outside the domain of the specification: ' + reason(out)]))
            self.validated += 1
            return
        if not rest or len(self.fails) > self.max_fail or self.outside >= 3:
            if not self.fails:
                raise Machinery('TLC failed: ' + out[-1500:])
            return
        half = len(lines) // 2
        self._validate(lines[:half])
        if len(self.fails) <= self.max_fail and self.outside < 3:
            self._validate(lines[half:])

    # -------------------------------------------------------------- models
    def model(self, module, cfg, env=None, **k):
        """Model-checks a module; an error is a failure of the specification, not of the code."""
        out, info = tlc.run(module, cfg, self.scratch, env=env, **k)
        if info['rc'] != 0:
            raise Machinery('model %s: %s' % (module, out[-3000:]))
        self.states += info.get('distinct', 0)
        self.transitions += info.get('generated', 0)
        self.models.append({k: info.get(k) for k in ('module', 'generated', 'distinct', 'wall')})
        return out

    def shapes(self, typ, which='usual'):
        if (typ, which) in self.known:
            return list(self.known[typ, which])
        s, info = tlc.shapes(typ, self.tier, self.scratch, which)
        self.known[typ, which] = list(s)
        self.models.append({k: info.get(k) for k in ('module', 'generated', 'distinct', 'wall')})
        return s

    def direct(self, tid, clause, note=None):
        """a failure the driver sees without TLC (only for a run that never answers)"""
        self.meta.setdefault(tid, {'kind': 'direct', 'note': note})
        self.fails.append((tid, 0, [clause]))

    def close(self):
        os.chdir('/')
        shutil.rmtree(self.scratch, ignore_errors=True)


def reason(out):
    k = out.find('Error:')
    return ' '.join(out[k:k + 400].split()) if k >= 0 else out[-300:]


def summary(o, note=None):
    ev = []
    for e in o['ev'][:6]:
        s = {k: e[k] for k in ('op', 'o', 'mode', 'sel', 'err', 'n', 'types', 'ret', 'call', 'fn') if k in e}
        if 'items' in e:
            s['items'] = [it['d'].get('type', ['n', '?'])[1] for it in e['items']][:6]
        if 'sets' in e:
            s['sets'] = len(e['sets'])
        ev.append(s)
    return {'trace': o['id'], 'events': len(o['ev']), 'first': ev, 'shape': note}
