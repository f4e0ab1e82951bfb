#!/opt/venv/bin/python
"""check.py Cnn : decide property Cnn on the current tree of /repo.
exit 0 held, 1 violated (VIOLATION line), 2 the check could not be carried out."""
import importlib, json, os, shutil, subprocess, sys, time, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core

LEVEL = 'model_checking'


def child(prop, tier, seed, scratch):
    import faulthandler
    faulthandler.enable()
    ctx = core.Ctx(prop, tier, seed, scratch)
    ctx.stepfile = open(os.path.join(scratch, 'step.json'), 'w+')
    sys.path.insert(0, os.path.join(scratch, 'pkg'))
    os.environ.setdefault('MPLBACKEND', 'Agg')
    mod = importlib.import_module('props.' + prop.lower())
    error = None
    try:
        mod.run(ctx)
    except core.StopChecking:
        pass
    except core.Violation as v:
        try:
            ctx.violation(v.clause, v.detail, ctx.current)
        except core.StopChecking:
            pass
    except core.MachineryError as e:
        error = str(e)
    except BaseException as e:
        # An exception that escaped from the real code (the innermost frames lie in the package under
        # test) while it was executing a behaviour the specification allows is a violation; anything
        # else is an error of the machinery.
        tb = traceback.extract_tb(e.__traceback__)
        pkg = os.path.join(scratch, 'pkg')
        if any(f.filename.startswith(pkg) for f in tb) and not isinstance(e, KeyboardInterrupt):
            try:
                ctx.violation('NoException', f'{type(e).__name__}: {e} in {[(os.path.basename(f.filename), f.lineno, f.name) for f in tb if f.filename.startswith(pkg)][-3:]}', ctx.current)
            except core.StopChecking:
                pass
        else:
            error = traceback.format_exc()
    r = ctx.result()
    r['error'] = error
    with open(os.path.join(scratch, 'result.json'), 'w') as f:
        json.dump(r, f, default=str)


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    tier = 'thorough' if tier == 'thorough' else 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    t0 = time.time()
    scratch = core.make_scratch()
    try:
        return run(prop, tier, seed, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def crash_tail(t):
    i = t.find("Fatal Python error")
    return t[i:i + 900] if i >= 0 else t[-300:]


def run(prop, tier, seed, scratch, t0):
    error, res = None, None
    limit = 840 if tier == 'quick' else 6 * 3600
    try:
        core.build(scratch)
    except core.MachineryError as e:
        print(e, file=sys.stderr)
        return 2
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', PYTHONHASHSEED='0')
    env.setdefault('TRACEON_THREADS', '4')
    env.pop('TRACEON_LOG_LEVEL', None)
    out = open(os.path.join(scratch, 'out.txt'), 'w')
    p = subprocess.Popen([sys.executable, os.path.abspath(__file__), '--child', prop, tier, str(seed), scratch], env=env, stdout=out, stderr=subprocess.STDOUT,
                         start_new_session=True)
    try:
        rc = p.wait(timeout=limit)
    except subprocess.TimeoutExpired:
        import signal
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        rc = 'timeout'
    tail = open(os.path.join(scratch, 'out.txt'), errors='replace').read()[-6000:]
    if os.environ.get('VERIF_SHOW'):
        print(tail)
    step = ''
    try:
        step = open(os.path.join(scratch, 'step.json')).read()
    except OSError:
        pass
    try:
        res = json.load(open(os.path.join(scratch, 'result.json')))
    except (OSError, ValueError):
        res = dict(states=0, transitions=0, validated=0, designs=[], samples=[], counts={}, violations=[], known_hits=[], assumptions=[], error=None)
        if rc == 'timeout':
            stuck = time.time() - os.path.getmtime(os.path.join(scratch, 'step.json')) if step else 0
            if stuck > 500 and tier == 'quick':
                # Single operations take seconds at the most
                res['violations'] = [dict(clause='Terminates', detail=f'no answer after {stuck:.0f} s in {step}', replay=step)]
            else:
                res['error'] = 'no answer within the time limit, during ' + step + '\n' + tail
        elif isinstance(rc, int) and rc < 0 or (step and rc == 1 and 'ExcitationType' in tail):
            # The process died in native code while executing a behaviour that the specification allows
            res['violations'] = [dict(clause='NoCrash', detail=f'the process died (status {rc}) during {step} {crash_tail(tail)}', replay=step)]
        else:
            res['error'] = f'child ended with {rc}\n{tail}'
    wall = time.time() - t0
    mod_note = []
    if res['error'] and not res['violations']:
        print(tail, file=sys.stderr)
        print('ERROR', res['error'], file=sys.stderr)
        return 2
    evidence = os.environ.get('VERIF_EVIDENCE') or os.path.join(core.VERIF, 'evidence')
    os.makedirs(evidence, exist_ok=True)
    coverage = dict(states=res['states'], transitions=res['transitions'], traces_validated_against_impl=res['validated'],
                    samples=res['samples'] or ['none'], design_models=res['designs'], counts=res['counts'])
    ev = dict(property=prop, tier=tier, seed=seed, level=LEVEL, coverage=coverage, assumptions=res['assumptions'], wall_s=round(wall, 2),
              violations=len(res['violations']))
    path = os.path.join(evidence, prop + '.json')
    with open(path + f'.{os.getpid()}', 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(path + f'.{os.getpid()}', path)
    for k in res['known_hits']:
        print(f'KNOWN-FINDING: property={prop} {k["what"]}')
    if res['violations']:
        rp = os.path.join(evidence, f'{prop}.replay.json')
        with open(rp, 'w') as f:
            json.dump(dict(property=prop, seed=seed, tier=tier, violations=res['violations'],
                           rerun=f'VERIF_SEED={seed} VERIF_TIER={tier} /opt/venv/bin/python harness/check.py {prop}'), f, indent=1, default=str)
        for v in res['violations']:
            print(f'  clause {v["clause"]}: {v["detail"][:1500]}')
        print(f'VIOLATION property={prop} replay={rp}')
        return 1
    print(f'OK property={prop} states={res["states"]} transitions={res["transitions"]} traces={res["validated"]} counts={json.dumps(res["counts"])} wall={wall:.1f}s')
    return 0


if __name__ == '__main__':
    if sys.argv[1] == '--child':
        child(sys.argv[2], sys.argv[3], int(sys.argv[4]), sys.argv[5])
        os._exit(0) if False else sys.exit(0)
    sys.exit(main())
