#!/usr/bin/env python3
"""check.py PROPERTY : decide one property of the tree in /repo.

exit 0: every obligation of every contract in the property's cone was discharged (or what was not
        could neither be refuted by the bounded check nor by replay against the real code)
exit 1: VIOLATION property=<id> replay=<path> [no-failing-input-found]
"""
import concurrent.futures, json, os, shutil, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import engine
from props import PROPS

VERIF = engine.VERIF
DEADLINE = float(os.environ.get('LSQ_DEADLINE', '840'))


def real(r):
    return [f for f in r.failed if f['status'] == 'FAILURE' and not f['scaffold']]


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    t0 = time.time()
    P = PROPS[pid]
    work = tempfile.mkdtemp(prefix='lsqcheck.')
    try:
        return decide(pid, P, tier, seed, t0, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def decide(pid, P, tier, seed, t0, work):
    units = [engine.Unit(u) for u in P['units']]
    jobs = []
    for u in units:
        for v in u.variants + (u.thorough_variants if tier == 'thorough' else []):
            jobs.append((u, v, 'proof'))
    jobs.sort(key=lambda j: -j[0].weight)
    ex = concurrent.futures.ThreadPoolExecutor(engine.JOBS)
    res = list(ex.map(lambda j: engine.solve(j[0], j[1], j[2], work), jobs))
    bad = [(u, r) for (u, _, _), r in zip(jobs, res) if r.status != 'proved']
    notes, cands, undecided, refused = [], [], [], []
    # --- what the verifier did not accept
    again = []
    for u, r in bad:
        rf = real(r)
        if rf and not u.loops:
            cands.append((u, r, rf[0]))
        else:
            # with every loop invariant still accepted, a refused obligation is about the code
            if rf and not [f for f in r.failed if f['scaffold']]:
                refused.append((u, r, rf[0]))
            notes.append('%s[%s]: %s' % (u.name, r.variant, r.why or '; '.join(
                '%s (%s:%s)' % (f['desc'], f['file'], f['line']) for f in r.failed[:4])))
            if u.fallback:
                if u not in [a[0] for a in again]:
                    again.append((u, r))
            else:
                undecided.append((u, r))
    fb = []
    if again:
        fj = [(u, v, r) for u, r in again for v in (u.fvariants or u.variants)]
        fr = list(ex.map(lambda j: engine.solve(j[0], j[1], 'bounded', work), fj))
        for u, r0 in again:
            rs = [r for (x, _, _), r in zip(fj, fr) if x is u]
            fb += rs
            hit = [(r, real(r)) for r in rs if real(r)]
            if hit:
                cands.append((u, hit[0][0], hit[0][1][0]))
            else:
                undecided.append((u, r0))
            for r in rs:
                notes.append('%s[%s] bounded: %s %s' % (u.name, r.variant, r.status, r.why))
    ex.shutdown()
    hit = {u.name for u, _, _ in cands}
    cands += [x for x in refused if x[0].name not in hit]
    # --- replay against the real code
    confirmed, otext = None, ''
    if cands or undecided:
        try:
            import replay
            left = max(30, min(150, DEADLINE - (time.time() - t0)))
            confirmed, otext = replay.replay(pid, P['groups'], seed, work, left)
        except Exception as e:      # the replay machinery must never decide by crashing
            otext = 'replay not available: %r' % (e,)
    violation = bool(cands) or bool(confirmed)
    path = None
    if violation:
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        path = os.path.join(VERIF, 'replays', pid + '.txt')
        with open(path, 'w') as f:
            f.write('property %s\n' % pid)
            for u, r, ob in cands:
                f.write('\nFAILED OBLIGATION %s [%s] %s\n  %s\n  at %s:%s in %s\n' % (
                    u.name, r.variant + ' ' + r.mode, ob['name'], ob['desc'], ob['file'], ob['line'], ob['fn']))
                for x in real(r)[1:20]:
                    f.write('  also: %s %s (%s:%s)\n' % (x['name'], x['desc'], x['file'], x['line']))
            if cands and not confirmed and time.time() - t0 < DEADLINE - 100:
                u, r, ob = cands[0]
                c, o = engine.trace(u, r, ob, 60)
                f.write('\nverifier: %s\n%s\n' % (c, o[-40000:]))
            for n in notes:
                f.write('\nnote: %s\n' % n)
            f.write('\nREPLAY ON THE REAL CODE: %s\n%s\n' % ('confirmed' if confirmed else 'no failing input found', otext))
    # --- evidence
    ok = [r for r in res if r.status == 'proved']
    full = [(u, r) for (u, _, _), r in zip(jobs, res) if not u.bounded]
    bnd = [(u, r) for (u, _, _), r in zip(jobs, res) if u.bounded]
    trusted = ['CBMC 6.11 (goto-cc, goto-instrument loop contracts, symbolic execution) and its SAT solvers (CaDiCaL, MiniSat)',
               'proofs/*.c state the contracts; a caller sees a callee only through its contract stub (goto-instrument --replace-calls)',
               'memcpy/memset primitives as specified in proofs/watch.h']
    for u in units:
        trusted += [t for t in u.trusted if t not in trusted]
    cov = {
        'obligations': sum(r.obligations for _, r in full),
        'discharged': sum(r.discharged for _, r in full),
        'checker_cmd': (res[0].cmd or 'cbmc').replace(work, '$WORK'),
        'trusted_base': trusted,
        'functions_under_contract': sorted({f for u in units for f in u.fns}),
        'units': [{'unit': u.name, 'what': u.what, 'variant': r.variant, 'status': r.status, 'obligations': r.obligations,
                   'discharged': r.discharged, 'reachability_checks': r.covers, 'back_end': 'cbmc 6.11 / %s' % r.solver,
                   'seconds': round(r.time, 2), 'bounded': u.bounded or False, 'why': r.why}
                  for (u, _, _), r in zip(jobs, res)],
        'bounded_obligations': sum(r.obligations for _, r in bnd),
        'bounded_discharged': sum(r.discharged for _, r in bnd),
        'bounds': {u.name: u.bounded for u, _ in bnd},
        'solver_seconds': round(sum(r.time for r in res), 1),
        'undecided': [u.name + '[' + r.variant + ']: ' + r.why for u, r in undecided],
        'fallback': [{'unit': r.unit, 'variant': r.variant, 'status': r.status, 'why': r.why} for r in fb],
        'notes': notes,
    }
    if P['level'] == 'other':
        cov['explanation'] = P['note']
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': P['level'], 'coverage': cov,
          'assumptions': [P['note']] if P['note'] else [], 'wall_s': round(time.time() - t0, 2),
          'violations': 1 if violation else 0}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    # --- verdict
    kf = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(kf):
        for line in open(kf):
            if line.startswith('finding: property=%s ' % pid):
                print('KNOWN-FINDING: ' + line[len('finding: '):].strip())
    for u, r, ob in cands:
        print('failed obligation: %s[%s] %s: %s (%s:%s)' % (u.name, r.variant, ob['name'], ob['desc'], ob['file'], ob['line']))
    for n in notes:
        print('note: ' + n[:400])
    print('%s: %d/%d obligations discharged (%d/%d bounded), %d units, %.1f s' % (
        pid, cov['discharged'], cov['obligations'], cov['bounded_discharged'], cov['bounded_obligations'], len(units), time.time() - t0))
    if violation:
        print('VIOLATION property=%s replay=%s%s' % (pid, path, '' if confirmed else ' no-failing-input-found'))
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main())
