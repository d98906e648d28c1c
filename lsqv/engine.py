"""Contract engine: turns a unit (a contract harness in /verif/proofs) plus the current
source of /repo into verification conditions, has CBMC discharge them, and reports
every obligation by name."""
import concurrent.futures, hashlib, json, os, re, resource, shutil, signal, subprocess, tempfile, time
import annotate

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('LSQ_REPO', '/repo')
JOBS = int(os.environ.get('LSQ_JOBS', '8'))

BASE_CBMC = ['--no-standard-checks', '--bounds-check', '--pointer-check', '--div-by-zero-check',
             '--slice-formula', '--drop-unused-functions', '--arrays-uf-always']


class Unit:
    def __init__(self, name):
        self.name = name
        self.lean = name.startswith('lemma:')
        self.path = os.path.join(VERIF, 'proofs', 'lemmas', name[6:] + '.lean') if self.lean else os.path.join(VERIF, 'proofs', name + '.c')
        self.sources, self.fns, self.replace, self.loops, self.ghosts = [], [], [], [], []
        self.variants, self.thorough_variants = [''], []
        self.unwind, self.fallback, self.bounded = None, None, None
        self.cbmc, self.timeout, self.fallback_timeout, self.object_bits = [], 240, 150, 8
        self.defines, self.trusted, self.fvariants, self.nobody = [], [], None, []
        self.what = ''
        self.unwindset = []
        self.weight = 1
        self.funwindset, self.fflat, self.fsolver = [], False, None
        self.uf = True
        self.solver = os.environ.get('LSQ_SOLVER', 'cadical')
        for line in [] if self.lean else open(self.path):
            m = re.match(r'\s*(?:/\*|\*)?\s*@(\w+)\s+(.*?)\s*(?:\*/)?\s*$', line)
            if not m:
                continue
            k, v = m.group(1), m.group(2)
            if k == 'source': self.sources += v.split()
            elif k == 'fn': self.fns += v.split()
            elif k == 'replace': self.replace += v.split()
            elif k == 'loop':
                f, n = v.split(); self.loops.append((f, int(n)))
            elif k == 'ghost':
                f, n = v.split(); self.ghosts.append((f, int(n)))
            elif k == 'variants': self.variants = [x.strip() for x in v.split('|')]
            elif k == 'thorough': self.thorough_variants = [x.strip() for x in v.split('|')]
            elif k == 'fallback_variants': self.fvariants = [x.strip() for x in v.split('|')]
            elif k == 'unwind': self.unwind = int(v)
            elif k == 'fallback_unwindset': self.funwindset += v.split()
            elif k == 'fallback_arrays': self.fflat = v == 'flat'
            elif k == 'fallback_solver': self.fsolver = v
            elif k == 'unwindset': self.unwindset += v.split()
            elif k == 'fallback': self.fallback = int(v)
            elif k == 'bounded': self.bounded = v
            elif k == 'cbmc': self.cbmc += v.split()
            elif k == 'timeout': self.timeout = int(v)
            elif k == 'object_bits': self.object_bits = int(v)
            elif k == 'solver': self.solver = v
            elif k == 'arrays': self.uf = v != 'flat'
            elif k == 'weight': self.weight = int(v)
            elif k == 'define': self.defines += v.split()
            elif k == 'nobody': self.nobody += v.split()
            elif k == 'trusted': self.trusted.append(v)
            elif k == 'what': self.what = v
            else: raise SystemExit('%s: unknown directive @%s' % (name, k))


def _limits(gb=7):
    os.setsid()
    resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run(cmd, timeout, cwd=None, gb=7):
    t = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=cwd,
                         preexec_fn=lambda: _limits(gb), stdin=subprocess.DEVNULL)
    try:
        out, _ = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        rc = 'timeout'
    return rc, out.decode('utf-8', 'replace'), time.time() - t


def is_scaffold(name, desc):
    """obligations about our own annotations, not about what the code does"""
    d = desc.lower()
    return ('loop_invariant' in name or 'invariant' in d or 'loop_assigns' in name or 'assigns' in name or
            'is assignable' in d or 'unwinding assertion' in d or 'loop_decreases' in name or
            'decreases' in d or 'scaffold' in d)


class Result:
    def __init__(self):
        self.status = 'undecided'     # proved | failed | undecided
        self.why = ''
        self.obligations = self.discharged = 0
        self.failed = []              # dicts: name, desc, line, fn, file, scaffold
        self.covers = 0
        self.time = 0.0
        self.cmd = ''
        self.unit = self.variant = ''
        self.mode = 'proof'
        self.gb = None
        self.solver = None


def prepare(unit, variant, mode, work):
    """-> (goto binary | None, reason)"""
    d = tempfile.mkdtemp(prefix=re.sub(r'\W', '_', unit.name + variant + mode) + '.', dir=work)
    for s in unit.sources:
        p = os.path.join(REPO, s)
        if not os.path.exists(p):
            return None, 'source %s is gone' % s, d
        text = open(p, encoding='utf-8', errors='surrogateescape').read()
        missing = []
        if mode == 'proof':
            fns, _ = annotate.functions(text)
            want = [(f, n) for f, n in unit.loops if f in fns]
            text, missing = annotate.annotate(text, want, [(f, n) for f, n in unit.ghosts if f in fns])
        os.makedirs(os.path.join(d, 'cur'), exist_ok=True)
        open(os.path.join(d, 'cur', os.path.basename(s)), 'w', encoding='utf-8', errors='surrogateescape').write(text)
        if missing:
            return None, '; '.join(missing), d
    a, b = os.path.join(d, 'a.gb'), os.path.join(d, 'b.gb')
    cmd = ['goto-cc', '-I', d, '-I', os.path.join(VERIF, 'proofs'), '-I', os.path.join(REPO, 'include'),
           '-I', os.path.join(REPO, 'src'), '-I', os.path.join(REPO, 'sample'), '--function', 'harness', '-o', a, unit.path]
    cmd += ['-D' + x for x in unit.defines]
    cmd += ['-D' + x for x in variant.split()]
    if mode == 'bounded':
        cmd.append('-DLSQ_BOUNDED')
    rc, out, _ = run(cmd, 60)
    if rc != 0:
        return None, 'harness does not compile against this source: ' + out[-600:], d
    rc, out, _ = run(['goto-instrument', '--list-symbols', a], 60)
    syms = set(re.findall(r'^(\S+)', out, re.M))
    gi = ['goto-instrument']
    for f in unit.replace:
        if f not in syms:
            return None, 'callee %s under contract is gone' % f, d
        gi += ['--replace-calls', '%s:stub_%s' % (f, f)]
    cur = a
    if len(gi) > 1:
        n = os.path.join(d, 'r.gb')
        rc, out, _ = run(gi + [cur, n], 60)
        if rc != 0:
            return None, 'replace-calls: ' + out[-400:], d
        cur = n
    if mode == 'proof' and unit.loops:
        rc, out, _ = run(['goto-instrument', '--apply-loop-contracts', '--disable-loop-contracts-side-effect-check', cur, b], 120)
        if rc != 0:
            return None, 'apply-loop-contracts: ' + out[-600:], d
        cur = b
    return cur, '', d


def cbmc_cmd(unit, mode, gb, solver=None):
    uf = unit.uf and not (mode == 'bounded' and unit.fflat)
    cmd = ['cbmc'] + [x for x in BASE_CBMC if uf or 'arrays-uf' not in x] + (['--sat-solver', 'cadical'] if (solver or unit.solver) == 'cadical' else []) + ['--object-bits', str(unit.object_bits)] + unit.cbmc
    if mode == 'bounded':
        cmd += ['--unwind', str(unit.fallback), '--no-unwinding-assertions']
        for u in unit.funwindset:
            cmd += ['--unwindset', u]
    else:
        if unit.unwind:
            cmd += ['--unwind', str(unit.unwind)]
            if unit.bounded and 'truncated' in unit.bounded:
                cmd += ['--no-unwinding-assertions']
            else:
                cmd += ['--unwinding-assertions']
        elif unit.unwindset:
            cmd += ['--unwinding-assertions']
        for u in unit.unwindset:
            cmd += ['--unwindset', u]
    return cmd + [gb]


def lemma(unit, r):
    """a lemma over the contracts, checked by Lean"""
    text = open(unit.path).read()
    names = re.findall(r'^theorem (\S+)', text, re.M)
    r.cmd, r.solver = 'lean ' + unit.path, 'lean'
    r.obligations = len(names)
    try:
        rc, out, r.time = run(['lean', '-j1', unit.path], unit.timeout, gb=256)
    except OSError as e:
        rc, out = None, str(e)
    if rc == 0 and 'sorry' not in text + out and not re.search(r'^\s*(axiom|opaque|unsafe)|native_decide', text, re.M):
        r.status, r.discharged = 'proved', len(names)
    else:
        r.why = 'lean: ' + out[-400:]
    return r


def solve(unit, variant, mode, work):
    r = Result()
    r.unit, r.variant, r.mode = unit.name, variant, mode
    t0 = time.time()
    if unit.lean:
        return lemma(unit, r)
    gb, why, d = prepare(unit, variant, mode, work)
    if not gb:
        r.why = why
        r.time = time.time() - t0
        return r
    r.gb = gb
    limit = unit.timeout if mode == 'proof' else unit.fallback_timeout
    first = mode == 'bounded' and unit.fsolver or unit.solver
    other = 'minisat' if first == 'cadical' else 'cadical'
    for solver in (first, other):
        cmd = cbmc_cmd(unit, mode, gb, solver)
        r.cmd = ' '.join(cmd)
        r.solver = solver
        rc, out, _ = run(cmd + ['--json-ui'], limit / 2)
        if rc != 'timeout' and 'Out of memory' not in out[-3000:]:
            break
    r.time = time.time() - t0
    if rc == 'timeout':
        r.why = 'solver time-out'
        return r
    try:
        js = json.loads(out)
    except ValueError:
        r.why = 'cbmc: ' + out[-500:]
        return r
    res = None
    nobody = set()
    for e in js:
        if 'result' in e:
            res = e['result']
        if e.get('messageType') == 'WARNING':
            m = re.search(r'no body for (?:function|callee) (\S+)', e.get('messageText', ''))
            if m and not m.group(1).strip("'").startswith('nondet_') and '__CPROVER' not in m.group(1) \
                    and m.group(1) not in unit.nobody:
                nobody.add(m.group(1))
    if res is None:
        r.why = 'cbmc gave no result: ' + ' '.join(e.get('messageText', '') for e in js)[-500:]
        return r
    covers = {}
    for p in res:
        desc, name = p.get('description', ''), p.get('property', '')
        loc = p.get('sourceLocation', {})
        if desc.startswith('COVER'):
            covers.setdefault(desc + ' @' + str(loc.get('line')), []).append(p['status'])
            continue
        r.obligations += 1
        if p['status'] == 'SUCCESS':
            r.discharged += 1
        else:
            r.failed.append({'name': name, 'desc': desc, 'line': loc.get('line'), 'fn': loc.get('function'),
                             'file': os.path.basename(loc.get('file', '')), 'status': p['status'],
                             'scaffold': is_scaffold(name, desc)})
    r.covers = len(covers)
    dead = [c for c, s in covers.items() if 'FAILURE' not in s]
    if nobody:
        r.why = 'calls without a contract: ' + ', '.join(sorted(nobody))
    elif not r.obligations:
        r.why = 'no obligation was generated'
    elif r.failed:
        r.status = 'failed'
    elif not covers:
        r.why = 'no reachability check'
    elif dead:
        if mode == 'bounded':
            r.status = 'proved'
        r.why = 'vacuous: unreachable ' + '; '.join(dead)
    else:
        r.status = 'proved'
    return r


def trace(unit, r, ob, timeout=120):
    cmd = cbmc_cmd(unit, r.mode, r.gb, r.solver)
    cmd = cmd[:-1] + ['--property', ob['name'], '--trace', '--compact-trace', cmd[-1]]
    rc, out, _ = run(cmd, timeout)
    return ' '.join(cmd), out
