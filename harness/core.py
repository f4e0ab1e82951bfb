"""Shared machinery: scratch build of the code under test, TLC runs, verdicts, evidence.

A check is   /opt/venv/bin/python harness/check.py Cnn   (see check.py).  It never touches /repo:
the package is copied to a scratch directory, its C backend is compiled there, and the checks
import that copy.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time, signal

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
REPO = os.environ.get('VERIF_REPO', '/repo')
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class MachineryError(Exception):
    """The check itself could not do its work (exit status 2)."""


class Violation(Exception):
    def __init__(self, clause, detail):
        super().__init__(f'{clause}: {detail}')
        self.clause, self.detail = clause, detail


def make_scratch():
    base = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else '/tmp'
    return tempfile.mkdtemp(prefix='verif-', dir=base)


def build(scratch):
    """Copy the package of the current working tree and compile its backend."""
    src, dst = os.path.join(REPO, 'traceon'), os.path.join(scratch, 'pkg', 'traceon')
    shutil.copytree(src, dst, ignore=shutil.ignore_patterns('*.so', '__pycache__', '*.pyd'))
    back = os.path.join(dst, 'backend')
    cmd = ['clang', '-O3', '-mavx', '-ffast-math', '-DNDEBUG', '-shared', '-fPIC', '-w',
           '-o', os.path.join(back, 'traceon_backend.so'), os.path.join(back, 'traceon-backend.c'), '-lm']
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise MachineryError('building the backend failed:\n' + r.stderr[-2000:])
    return os.path.join(scratch, 'pkg')


# ---------------------------------------------------------------------------------- TLC

class TLCResult:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        # Only complete messages count: the last "N states generated, M distinct" line
        m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', out)
        self.generated = int(m[-1][0].replace(',', '')) if m else 0
        self.distinct = int(m[-1][1].replace(',', '')) if m else 0
        m = re.findall(r'The number of states generated: ([\d,]+)', out)   # simulation mode
        if m:
            self.generated = int(m[-1].replace(',', ''))
            self.distinct = self.distinct or self.generated
        m = re.search(r'Invariant (\w+) is violated', out) or re.search(r'Action property (\w+) is violated', out) \
            or re.search(r'Temporal property (\w+) (?:is|was) violated', out)
        self.violated = m.group(1) if m else None
        if not self.violated and 'Temporal properties were violated' in out:
            self.violated = 'temporal'
        self.deadlock = 'Deadlock reached' in out
        self.ok = ('No error has been found' in out) or (rc == 0)

    def last_state(self):
        """The variables of the last state of the counterexample, as text."""
        blocks = re.split(r'^State \d+: .*$', self.out, flags=re.M)
        if len(blocks) < 2:
            return ''
        return re.split(r'\n\s*\n', blocks[-1].strip())[0]

    def prints(self, tag='B@'):
        """JSON values printed by the specification with PrintT(tag \\o ToJson(x))."""
        res = []
        for line in self.out.split('\n'):
            if line.startswith('"' + tag):
                res.append(json.loads(json.loads(line)[len(tag):]))
        return res


def tlc(ctx, module, cfg, args=(), heap='3g', timeout=600, workers='auto', files=None, jvm=()):
    """Run TLC on spec/<module>.tla with the given configuration text."""
    d = tempfile.mkdtemp(prefix='tlc-', dir=ctx.scratch)
    for f in os.listdir(SPEC):
        if f.endswith('.tla'):
            os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
    for name, text in (files or {}).items():
        p = os.path.join(d, name)
        if os.path.lexists(p):
            os.unlink(p)
        with open(p, 'w') as f:
            f.write(text)
    with open(os.path.join(d, 'run.cfg'), 'w') as f:
        f.write(cfg)
    cmd = ['java', '-XX:+UseParallelGC', '-Xss16m', f'-Xmx{heap}', '-XX:TieredStopAtLevel=4', *jvm, '-cp', JAR, 'tlc2.TLC',
           '-metadir', os.path.join(d, 'meta'), '-noGenerateSpecTE', '-config', 'run.cfg', '-workers', str(workers), *args, module + '.tla']
    try:
        r = subprocess.run(cmd, cwd=d, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired as e:
        raise MachineryError(f'TLC on {module} took more than {timeout} s') from e
    res = TLCResult(r.stdout, r.returncode)
    if not res.violated and not res.deadlock and (r.returncode != 0 or re.search(r'^Error:|Parsing or semantic analysis failed|TLC threw', r.stdout, flags=re.M)):
        raise MachineryError(f'TLC on {module} failed (status {r.returncode}):\n' + r.stdout[-3000:] + r.stderr[-1000:])
    shutil.rmtree(d, ignore_errors=True)
    ctx.states += res.distinct
    ctx.transitions += res.generated
    return res


def model_check(ctx, module, cfg, **kw):
    """Exhaustive check of a design model. A violated invariant here means the specification itself is
    wrong (it does not look at the code), so it is an error of the machinery, not a finding."""
    res = tlc(ctx, module, cfg, **kw)
    if res.violated or res.deadlock:
        raise MachineryError(f'design model {module}: {res.violated or "deadlock"}\n' + res.out[-3000:])
    ctx.designs.append(dict(module=module, states=res.distinct, transitions=res.generated))
    return res


def behaviours(ctx, module, cfg, num, depth, seed=None, tag='B@', **kw):
    """Behaviours of the specification, generated by TLC's simulator (deterministic in the seed)."""
    seed = ctx.seed if seed is None else seed
    kw.setdefault('workers', 1)
    kw.setdefault('timeout', 400)
    res = tlc(ctx, module, cfg, args=['-simulate', f'num={num}', '-depth', str(depth), '-seed', str(seed), '-deadlock'], **kw)
    if res.violated:
        raise MachineryError(f'behaviour generator {module}: {res.violated}\n' + res.out[-3000:])
    b = res.prints(tag)
    if not b:
        raise MachineryError(f'{module} generated no behaviours\n' + res.out[-2000:])
    return b


def split_behaviours(ctx, module, cfg, num, depth, parts=4, **kw):
    """Same, in several TLC processes side by side."""
    from concurrent.futures import ThreadPoolExecutor
    per = -(-num // parts)
    with ThreadPoolExecutor(parts) as ex:
        res = list(ex.map(lambda i: behaviours(ctx, module, cfg, per, depth, seed=ctx.seed * 1000 + i, **kw), range(parts)))
    return [b for r in res for b in r]


def instance(base, spec, defs):
    """A module that extends `base` and substitutes expressions for its constants (configuration files
    have no expressions).  Returns keyword arguments and the configuration text."""
    lines = [f'---- MODULE {base}Run ----', f'EXTENDS {base}']
    cfg = []
    for k, v in defs.items():
        if isinstance(v, bool):
            v = 'TRUE' if v else 'FALSE'
        lines.append(f'c_{k} == {v}')
        cfg.append(f'CONSTANT {k} <- c_{k}\n')
    lines.append(f'RunSpec == {spec}')
    lines.append('====')
    return {base + 'Run.tla': '\n'.join(lines)}, 'SPECIFICATION RunSpec\nCHECK_DEADLOCK FALSE\n' + ''.join(cfg)


def design(ctx, base, spec, defs, invariants, properties=(), view=None, **kw):
    """Exhaustive check of a design."""
    files, cfg = instance(base, spec, defs)
    if view:
        cfg += f'VIEW {view}\n'
    cfg += ''.join(f'INVARIANT {i}\n' for i in invariants) + ''.join(f'PROPERTY {i}\n' for i in properties)
    return model_check(ctx, base + 'Run', cfg, files=files, **kw)


def generate(ctx, base, spec, defs, num, depth, parts=1, invariants=('Done',), **kw):
    """Behaviours of an instance, printed as JSON by an invariant of the specification."""
    files, cfg = instance(base, spec, defs)
    cfg += ''.join(f'INVARIANT {i}\n' for i in invariants)
    return split_behaviours(ctx, base + 'Run', cfg, num, depth, parts=parts, files=files, **kw)


def everything(ctx, base, spec, defs, invariant, **kw):
    """What the invariant prints in all reachable states."""
    files, cfg = instance(base, spec, defs)
    res = tlc(ctx, base + 'Run', cfg + f'INVARIANT {invariant}\n', files=files, workers=1, **kw)
    if res.violated or not res.prints():
        raise MachineryError(f'{base}: {res.violated}\n' + res.out[-2000:])
    return res.prints()


def accept(ctx, base, traces, defs, invariants, spec='TraceSpec', **kw):
    """Trace validation with an instance; see validate."""
    files, cfg = instance(base, spec, defs)
    return validate(ctx, base + 'Run', traces, invariants, cfg=cfg, files=files, **kw)


def validate(ctx, module, traces, invariants, cfg='SPECIFICATION TraceSpec\nCHECK_DEADLOCK FALSE\n', files=None, timeout=600, heap='4g', what='trace', names=None, report=True, events=lambda t: t):
    """Trace validation: `traces` is a list of traces recorded from the real code, `events(trace)` the list
    of events in one.  The trace specification (variables tr: number of the trace, n: events consumed)
    consumes one event per step and states every clause of the property as an invariant, so a rejected
    trace names the clause it breaks.  Accepted only if TLC consumed every event of every trace.  (All
    traces are in one JSON file: Traces == JsonDeserialize("traces.json").)  TLC stops at the first
    rejected trace."""
    if not traces:
        raise MachineryError('no traces to validate')
    cfg += ''.join(f'INVARIANT {i}\n' for i in invariants)
    res = tlc(ctx, module, cfg, files={**(files or {}), 'traces.json': json.dumps(traces)}, timeout=timeout, heap=heap)
    expect = sum(len(events(t)) + 1 for t in traces)
    if res.violated:
        last = res.last_state()
        m = re.search(r'\btr = (\d+)', last)
        l = re.search(r'\bn = (\d+)', last)
        t = int(m.group(1)) if m else 0
        k = int(l.group(1)) if l else 0
        ev = events(traces[t - 1])[k - 1] if t and 1 <= k <= len(events(traces[t - 1])) else None
        desc = f'{what} {names[t-1] if names and t else t} event {k}: {json.dumps(ev)[:600]}; specification state: {re.sub(chr(10), " ", last)[:1200]}'
        if not report:
            return res.violated, desc
        ctx.violation(res.violated, desc, dict(module=module, trace=traces[t - 1] if t else None, event=k))
    elif res.distinct != expect:
        raise MachineryError(f'{module}: TLC consumed {res.distinct} of {expect} states of the traces\n' + res.out[-1500:])
    else:
        ctx.validated += len(traces)
    return None


# ---------------------------------------------------------------------------------- verdicts

class Ctx:
    def __init__(self, prop, tier, seed, scratch):
        self.prop, self.tier, self.seed, self.scratch = prop, tier, seed, scratch
        self.quick = tier != 'thorough'
        self.states = self.transitions = self.validated = 0
        self.designs, self.samples, self.counts, self.assumptions = [], [], {}, []
        self.violations, self.known_hits = [], []
        self.t0 = time.time()
        try:
            with open(os.path.join(VERIF, 'known_findings.json')) as f:
                self.known = [k for k in json.load(f)['findings'] if k['property'] == prop]
        except FileNotFoundError:
            self.known = []
        self.current = None       # what the real code is executing now (for crash reports)

    def count(self, key, n=1):
        self.counts[key] = self.counts.get(key, 0) + n

    def sample(self, x):
        if len(self.samples) < 3:
            self.samples.append(x if len(json.dumps(x, default=str)) < 4000 else json.dumps(x, default=str)[:4000])

    def violation(self, clause, detail, replay=None, key=None):
        """Record a violation. `key` identifies the specific input, for matching with known findings."""
        for k in self.known:
            if key is not None and k['key'] == key:
                if key not in [h['key'] for h in self.known_hits]:
                    self.known_hits.append(k)
                return
        self.violations.append(dict(clause=clause, detail=str(detail), replay=replay))
        if len(self.violations) >= 5:
            raise StopChecking()

    def step(self, what):
        """Note what the real code is about to do, so that a crash or hang of the process can be reported."""
        self.current = what
        if self.stepfile:
            self.stepfile.seek(0)
            self.stepfile.write(json.dumps(what, default=str)[:4000])
            self.stepfile.truncate()
            self.stepfile.flush()

    stepfile = None

    def result(self):
        return dict(states=self.states, transitions=self.transitions, validated=self.validated, designs=self.designs, samples=self.samples,
                    counts=self.counts, violations=self.violations, known_hits=self.known_hits, assumptions=self.assumptions)


class StopChecking(Exception):
    pass
