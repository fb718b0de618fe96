"""check.py Pxx [--tier quick|thorough] [--only TRACE]   exit 0 held, 1 violated, 2 no verdict"""
import argparse
import json
import os
import re
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import core  # noqa: E402
import props  # noqa: E402


def known(prop):
    """Known findings of the property: [(regex on trace id, regex on clause, text)]"""
    p = os.path.join(core.VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [(re.compile(f['trace']), re.compile(f['clause']), f['what'])
            for f in json.load(open(p))['findings'] if f['property'] == prop]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick', choices=('quick', 'thorough'))
    ap.add_argument('--only')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED') or 1)
    spec = props.PROPS[a.prop]
    core.tlc.limited(10)
    ctx = core.Ctx(a.prop, a.tier, seed, a.only)
    rc = 2
    try:
        spec['run'](ctx)
        ctx.flush()
        rc = report(ctx, spec)
    except (core.Machinery, core.tlc.TLCError) as e:
        print('CHECK-FAILED property=%s %s' % (a.prop, e))
        if getattr(e, 'out', ''):
            print(e.out[-3000:])
    except Exception:
        traceback.print_exc()
        print('CHECK-FAILED property=%s' % a.prop)
    finally:
        ctx.close()
    sys.exit(rc)


def report(ctx, spec):
    mine, other = [], {}
    kn = known(ctx.prop)
    shown = {}
    for t, i, f in ctx.fails:
        c = [x for x in f if x.startswith(tuple(spec['clauses']) + ('no answer',))]
        for x in f:
            if x not in c:
                other[x] = other.get(x, 0) + 1
                if os.environ.get("UFF_OTHER"):
                    print("  other:", t, i, x)
        left = []
        for x in c:
            hit = [w for tr, cl, w in kn if tr.search(t) and cl.search(x)]
            if hit:
                shown[hit[0]] = shown.get(hit[0], 0) + 1
            else:
                left.append(x)
        if left:
            mine.append((t, i, left))
    os.makedirs(core.EVID, exist_ok=True)
    for w, n in sorted(shown.items()):
        print('KNOWN-FINDING: property=%s %s (%d events)' % (ctx.prop, w, n))
    ev = {'property': ctx.prop, 'tier': ctx.tier, 'seed': ctx.seed, 'level': spec.get('level', props.LEVEL),
          'coverage': {'states': ctx.states, 'transitions': ctx.transitions, 'traces_validated_against_impl': ctx.validated,
                       'events_validated': ctx.events, 'traces_by_kind': ctx.kinds, 'models': ctx.models[:40], 'samples': ctx.samples},
          'assumptions': spec.get('assumptions', []) + props.ASSUMPTIONS if hasattr(props, 'ASSUMPTIONS') else [],
          'wall_s': round(core.time.time() - ctx.t0, 2), 'violations': len(mine)}
    if ctx.only is None:
        with open(os.path.join(core.EVID, ctx.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    if ctx.validated == 0:
        raise core.Machinery('nothing was run')
    print('%s %s: %d traces, %d events judged; %d states, %d transitions; %.1f s' %
          (ctx.prop, ctx.tier, ctx.validated, ctx.events, ctx.states, ctx.transitions, core.time.time() - ctx.t0))
    if other:
        print('  (clauses of other properties: %s)' % ', '.join('%s x%d' % x for x in sorted(other.items())[:12]))
    if not mine:
        return 0
    d = os.path.join(core.EVID, 'replay')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, ctx.prop + '.json')
    with open(path, 'w') as f:
        json.dump({'property': ctx.prop, 'tier': ctx.tier, 'seed': ctx.seed,
                   'rerun': ['VERIF_SEED=%d /opt/venv/bin/python /verif/harness/check.py %s --tier %s --only %s' %
                             (ctx.seed, ctx.prop, ctx.tier, json.dumps(t)) for t in sorted({m[0] for m in mine})[:5]],
                   'failures': [{'trace': t, 'event': i, 'clauses': c, 'about': ctx.meta.get(t, {}).get('note')} for t, i, c in mine[:200]]},
                  f, indent=1)
    seen = set()
    for t, i, c in mine:
        if tuple(c) not in seen and len(seen) < 8:
            seen.add(tuple(c))
            print('  %s event %d: %s' % (t, i, '; '.join(c)))
    print('VIOLATION property=%s replay=%s' % (ctx.prop, path))
    return 1


if __name__ == '__main__':
    main()
