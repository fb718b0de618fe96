"""Runs TLC on the modules of /verif/spec."""
import json, os, re, resource, shutil, subprocess, tempfile, time

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class TLCError(Exception):
    def __init__(self, msg, out=''):
        super().__init__(msg)
        self.out = out


def limited(gb):
    """Code under test that asks for too much memory gets an exception instead of the whole machine."""
    hard = resource.getrlimit(resource.RLIMIT_AS)[1]
    soft = gb << 30
    resource.setrlimit(resource.RLIMIT_AS, (soft if hard in (-1, resource.RLIM_INFINITY) or soft < hard else hard, hard))


def unlimited():
    hard = resource.getrlimit(resource.RLIMIT_AS)[1]
    resource.setrlimit(resource.RLIMIT_AS, (hard, hard))


def run(module, cfg, scratch, env=None, workers=8, timeout=800, simulate=None, heap='6g'):
    """Returns (output, info). cfg: text of the configuration."""
    wd = tempfile.mkdtemp(prefix='tlc', dir=scratch)
    cfgfile = os.path.join(wd, module + '.cfg')
    with open(cfgfile, 'w') as f:
        f.write(cfg)
    cmd = ['java', '-XX:+UseParallelGC', '-Xss64m', '-Xmx' + heap, '-Dfile.encoding=UTF-8', '-Dstdout.encoding=UTF-8',
           '-Djava.io.tmpdir=' + wd, '-cp', JARS, 'tlc2.TLC', '-workers', str(workers), '-metadir', wd,
           '-noGenerateSpecTE', '-lncheck', 'final', '-config', cfgfile]
    if simulate:
        cmd += simulate
    cmd += [os.path.join(SPEC, module + '.tla')]
    e = dict(os.environ)
    e.update(env or {})
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                           preexec_fn=unlimited)
    except subprocess.TimeoutExpired as x:
        raise TLCError('TLC timed out on ' + module, (x.stdout or b'').decode('utf-8', 'replace'))
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    out = p.stdout.decode('utf-8', 'replace')
    info = {'wall': time.time() - t0, 'rc': p.returncode, 'module': module}
    m = re.search(r'(\d+) states generated, (\d+) distinct states', out)
    if m:
        info['generated'], info['distinct'] = int(m.group(1)), int(m.group(2))
    return out, info


def lines(out, tag):
    """JSON objects printed as "@@TAG {...}" by PrintT."""
    res = []
    pre = '"@@' + tag + ' '
    for l in out.splitlines():
        if l.startswith(pre):
            s = l[len(pre):]
            if s.endswith('"'):
                s = s[:-1]
            # PrintT quotes the string: backslashes and quotes are escaped
            res.append(json.loads(_unquote(s)))
    return res


def _unquote(s):
    if '\\' not in s:
        return s
    out, i = [], 0
    while i < len(s):
        c = s[i]
        if c == '\\' and i + 1 < len(s):
            n = s[i + 1]
            out.append({'n': '\n', 't': '\t', 'r': '\r', 'f': '\f'}.get(n, n))
            i += 2
        else:
            out.append(c)
            i += 1
    return ''.join(out)


def shapes(typ, tier, scratch, which='usual'):
    out, info = run('UffShapes', 'SPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n', scratch,
                    env={'UFF_TIER': tier, 'UFF_TYPE': typ, 'UFF_SET': which}, workers=1, timeout=120)
    if info['rc'] != 0:
        raise TLCError('UffShapes failed', out)
    res = lines(out, 'SHAPE')
    res.sort(key=lambda s: json.dumps(s, sort_keys=True))
    return res, info
