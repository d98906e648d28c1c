"""Looks for an input on which the compiled library breaks a property, once the verifier has not
accepted every obligation of it. The library is compiled from the tree as it is, with the address
sanitizer; oracle/oracle.cpp drives it and compares with a model built with the image."""
import os, signal, subprocess, time
HERE = os.path.dirname(os.path.abspath(__file__))
ORACLE = os.path.join(os.path.dirname(HERE), 'oracle')


def replay(pid, groups, seed, work, budget):
    t0 = time.time()
    out = os.path.join(work, 'oracle')
    p = subprocess.run(['bash', os.path.join(ORACLE, 'build.sh'), out, os.environ.get('LSQ_REPO', '/repo')], capture_output=True, text=True, timeout=max(60, budget))
    exe = os.path.join(out, 'oracle')
    if p.returncode or not os.path.exists(exe):
        return None, 'the library or the driver does not compile:\n' + (p.stdout + p.stderr)[-3000:]
    secs = max(5, min(70, int(budget - (time.time() - t0) - 20)))
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:handle_abort=1', TMPDIR='/tmp')
    procs = []
    for g in groups:
        for k in range(max(1, 8 // len(groups))):
            log = os.path.join(work, 'replay.%s.%d' % (g, k))
            d = os.path.join(work, 'cwd.%s.%d' % (g, k))
            os.makedirs(d)
            procs.append((g, seed + k, log, subprocess.Popen([exe, g, str(seed + k), str(secs)], stdin=subprocess.DEVNULL,
                          stdout=open(log, 'w'), stderr=subprocess.STDOUT, env=env, cwd=d, start_new_session=True)))
    hit = None
    live = list(procs)
    while live and hit is None:
        time.sleep(0.1)
        for q in list(live):
            rc = q[3].poll()
            if rc is None:
                continue
            live.remove(q)
            text = open(q[2], errors='replace').read()
            if rc != 0 and ('FAILING INPUT' in text or 'AddressSanitizer' in text or 'Assertion' in text):
                hit = (q[0], q[1], rc, text)
                break
        if time.time() - t0 > budget + 120:
            break
    for q in live:
        try:
            os.killpg(q[3].pid, signal.SIGKILL)
        except OSError:
            pass
        q[3].wait()
    ran = ', '.join(sorted({q[0] for q in procs}))
    if hit:
        return True, 'group %s, seed %d (exit %d)\nrerun: bash oracle/build.sh OUT && OUT/oracle %s %d %d\n%s' % (
            hit[0], hit[1], hit[2], hit[0], hit[1], secs, hit[3][:12000])
    return None, 'groups %s, seeds %d..%d, %d s each: every run agreed with the model' % (ran, seed, seed + 7, secs)
