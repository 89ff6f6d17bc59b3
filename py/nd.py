"""Runs the real code on cases, and TLC on what it did.

The verdicts are those of TLC evaluating the specification; in here they are
only collected."""
import hashlib, itertools, json, os, re, resource, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
HARNESS = os.path.join(VERIF, 'harness')
TARGET = os.path.join(HARNESS, 'target')
NDH = os.path.join(TARGET, 'release', 'ndh')
SPEC = os.path.join(VERIF, 'spec')
OUT = os.path.join(VERIF, 'out')
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
CPUS = os.cpu_count() or 4
COUNT = itertools.count()


class ToolError(Exception):
    """Something other than the code under test failed."""


# ---- building ----------------------------------------------------------------
def digest():
    h = hashlib.sha256()
    for base in (REPO, HARNESS):
        for dirpath, dirs, files in os.walk(base):
            dirs[:] = sorted(d for d in dirs if d not in ('target', '.git'))
            for f in sorted(files):
                if f.endswith(('.rs', '.toml', '.lock', '.yaml', '.md')):
                    p = os.path.join(dirpath, f)
                    h.update(p.encode() + b'\0')
                    with open(p, 'rb') as fh:
                        h.update(fh.read() + b'\0')
    return h.hexdigest()


def build():
    """Build the harness from the current contents of /repo."""
    stamp = os.path.join(TARGET, 'digest')
    now = digest()
    if os.path.exists(NDH) and os.path.exists(stamp) and open(stamp).read() == now:
        return
    env = dict(os.environ, CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE='true')
    env.pop('RUSTFLAGS', None)
    # Not to depend on modification times.
    subprocess.run(['cargo', 'clean', '--offline', '--release', '-p', 'nondestructive', '-p', 'ndh'], cwd=HARNESS, env=env,
                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    p = subprocess.run(['cargo', 'build', '--offline', '--release', '--locked'], cwd=HARNESS, env=env, capture_output=True, text=True)
    if p.returncode:
        raise ToolError('build failed:\n' + p.stderr[-4000:])
    with open(stamp, 'w') as f:
        f.write(now)


# ---- running the real code ---------------------------------------------------
def _limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


LIMIT_MS = 10000


def _run_some(cases):
    """Outcomes of cases, in order.  One which does not return, or takes the
    process with it, is an outcome too."""
    out = {}
    todo = list(cases)
    while todo:
        p = subprocess.Popen([NDH], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                             preexec_fn=_limits, env={'NDH_LIMIT_MS': str(LIMIT_MS), 'PATH': os.environ.get('PATH', '')})
        data = ('\n'.join(json.dumps(c) for c in todo) + '\n').encode()
        so, se = p.communicate(data)
        got = 0
        for line in so.decode().split('\n'):
            if not line:
                continue
            try:
                r = json.loads(line)
            except ValueError:
                break
            out[r['id']] = r
            got += 1
        if got >= len(todo):
            break
        if p.returncode == 7:
            todo = todo[got:]
            continue
        err = se.decode('utf-8', 'replace')
        if 'harness:' in err:
            raise ToolError('harness failed: ' + err[-2000:])
        out[todo[got]['id']] = {'id': todo[got]['id'], 'r': 'dead', 'm': f'status {p.returncode} {err[-300:]}'}
        todo = todo[got + 1:]
    return out


def run(cases, base=0):
    """Number the cases and run the real code on them."""
    for i, c in enumerate(cases):
        c['id'] = base + i
    n = min(CPUS, max(1, len(cases) // 50))
    parts = [cases[i::n] for i in range(n)]
    res = {}
    with ThreadPoolExecutor(n) as ex:
        for o in ex.map(_run_some, parts):
            res.update(o)
    return [res[c['id']] for c in cases]


# ---- executions, as the specification takes them -------------------------------
def _op(o):
    r = {'op': o['op'], 'p': o.get('p', []), 't': o.get('t', ''), 'v': o.get('v', ''), 'k': o.get('k', ''),
         'i': o.get('i', 0), 'sep': [o['sep']] if 'sep' in o else [], 'ls': o.get('ls', []), 'ch': o.get('ch', ''),
         'txt': '', 'd': o.get('d', 0), 'twin': o.get('twin', False)}
    t = o.get('then') or {}
    r['then'] = [dict(_op(t), then=[])] if t.get('op') else []
    r['many'] = [dict(_op(x), p=r['p']) for x in o.get('many', [])]
    return r


def execution(case, out):
    x = {'id': case['id'], 'in': case['in'], 'edits': bool(case.get('ops')), 'r': out['r'], 'steps': []}
    if 'ref' in case:
        x['ref'] = case['ref']
    if out['r'] == 'err':
        x.update(kind=out['kind'], s=out['s'], e=out['e'], m=len(out.get('m', 'x')), km=len(out.get('km', 'x')))
    if 'iter' in out:
        if 'panic' in out['iter']:
            x.update(r='panic', edits=True)
        else:
            x.update(r='iter', script=case['iter'], n=out['iter'][0], got=out['iter'][1:])
    if 'o' in out:
        x['o'] = out['o']
    for op, s in zip(case.get('ops', []), out.get('steps', [])):
        if s['res'] == 'panic' and str(s.get('m', '')).startswith('harness:'):
            raise ToolError(f'{s["m"]} in {case}')
        x['steps'].append({'op': _op(op), 'res': s['res'] if s.get('same', True) else 'differs', 'nid': s.get('nid', ''),
                           'bits': s.get('bits', ''), 'o': s['o'], 'f': s.get('f', [])})
    return x


# ---- TLC ---------------------------------------------------------------------
def tlc(module, cfg, workdir, workers=2, mem='3g', timeout=None, extra=()):
    """Run TLC in the specification's directory; its output, which must be that
    of a completed check."""
    path = os.path.join(workdir, f'{module}-{next(COUNT)}')
    os.makedirs(path)
    cf = os.path.join(path, 'm.cfg')
    with open(cf, 'w') as f:
        f.write(cfg)
    cmd = ['java', '-XX:+UseParallelGC', f'-XX:ParallelGCThreads={workers}', '-Xss128m', f'-Xmx{mem}', '-cp', CP, 'tlc2.TLC',
           '-workers', str(workers), '-noGenerateSpecTE', '-config', cf, '-metadir', os.path.join(path, 'meta'), *extra, module + '.tla']
    p = subprocess.run(cmd, cwd=SPEC, capture_output=True, timeout=timeout)
    return p.returncode, p.stdout.decode('latin1')


STAT = re.compile(r'(\d+) states generated, (\d+) distinct states found')


def finished(rc, text):
    if rc != 0 or 'Model checking completed. No error has been found.' not in text:
        i = text.find('Error')
        raise ToolError('TLC failed:\n' + (text[i:i + 3000] if i >= 0 else text[-3000:]))
    m = STAT.search(text)
    return int(m.group(1)), int(m.group(2))


def explore(module, constants, invariants, properties=(), workers=CPUS, defs=()):
    """Have TLC explore a bounded model, check what the specification claims of
    itself, and return what it printed: the behaviours to replay in the code,
    and the number of states."""
    work = tempfile.mkdtemp(prefix='mc-', dir=OUT)
    try:
        lines = [f'CONSTANT {k} = {v}' for k, v in constants.items()]
        cfg = '\n'.join(lines + ['INIT Init', 'NEXT Next', 'CHECK_DEADLOCK FALSE', 'INVARIANT ' + ' '.join(invariants)] +
                        (['PROPERTY ' + ' '.join(properties)] if properties else [])) + '\n'
        rc, text = tlc(module, cfg, work, workers=workers, mem='8g')
        gen, dist = finished(rc, text)
        MODELS.append({'module': module, 'constants': constants, 'theorems': [i for i in invariants if i != 'Emit'] + list(properties), 'states': dist})
        return [(int(a), json.loads(json.loads('"' + b + '"'))) for a, b in HLINE.findall(text.encode('latin1').decode('utf-8'))]
    finally:
        shutil.rmtree(work, ignore_errors=True)


# Models which were explored, for the evidence.
MODELS = []
HLINE = re.compile(r'<<"H", (\d+), "((?:[^"\\]|\\.)*)">>')


class Verdict:
    def __init__(self):
        self.violations = []      # (case id, step, codes)
        self.states = self.transitions = self.cases = self.steps = self.stops = 0
        self.raw = {}


VLINE = re.compile(r'<<\s*"V",\s*(\d+),\s*(\d+),\s*\{([^}]*)\}\s*>>', re.S)
SLINE = re.compile(r'<<\s*"S",\s*(\d+),\s*(\d+)\s*>>')


def judge(prop, execs, workdir, chunk=2500):
    """Have TLC replay executions against the specification."""
    v = Verdict()
    parts, cur, size = [], [], 0
    for x in execs:
        line = json.dumps(x, ensure_ascii=False)
        if cur and (len(cur) >= chunk or size > 24_000_000):
            parts.append(cur)
            cur, size = [], 0
        cur.append(line)
        size += len(line)
    if cur:
        parts.append(cur)
    # Spread over all processors.
    if len(parts) < 4 and len(execs) > 400:
        lines = [l for p in parts for l in p]
        parts = [lines[i::4] for i in range(4)]
    jobs = []
    for i, p in enumerate(parts):
        f = os.path.join(workdir, f'{prop}-{next(COUNT)}.ndjson')
        with open(f, 'w', encoding='utf-8') as fh:
            fh.write('\n'.join(p) + '\n')
        jobs.append((f, len(p)))

    def one(job):
        f, n = job
        cfg = f'CONSTANT File = "{f}"\nCONSTANT Prop = "{prop}"\nINIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n'
        rc, text = tlc('Trace', cfg, workdir)
        gen, dist = finished(rc, text)
        os.unlink(f)
        stops = SLINE.findall(text)
        if dist < 2 * n:
            raise ToolError(f'{dist} states for {n} cases')
        return gen - n, dist, [(int(a), int(b), re.findall(r'"([^"]*)"', c)) for a, b, c in VLINE.findall(text)], stops

    with ThreadPoolExecutor(max(1, CPUS // 2)) as ex:
        for gen, dist, vs, stops in ex.map(one, jobs):
            v.transitions += gen
            v.states += dist
            v.violations += vs
            v.stops += len(stops)
            v.raw.update({int(a): int(b) for a, b in stops})
    v.cases = len(execs)
    return v
