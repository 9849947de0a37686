#!/usr/bin/env python3
"""check.py ID [quick|thorough]: decides one property on /repo's working tree. See DESIGN.md for the rules.

Deciding step: every obligation generated from /repo's current source is discharged, by Kani (contracts on the compiled
crate, /verif/kani) and Verus (contracts on mechanically extracted functions, /verif/verus). The replay driver
(/verif/replay) runs programs on the real interpreter against independent expectations: it turns rejected obligations
into failing inputs, and is the bounded stand-in for functions outside of the provers' reach.
"""
import concurrent.futures, glob, json, os, re, shutil, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'verus'))
import extract

ENV = dict(os.environ, CARGO_NET_OFFLINE='true')
TIER = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
BUDGET = 780 if TIER == 'quick' else 3300     # seconds for a whole check
START = time.time()
def left(): return max(20, BUDGET - (time.time() - START))

UNITS = json.load(open(os.path.join(HERE, 'units.json')))

# Failures which say that a function is out of reach, not that a property is broken
UNDECIDED = ('unwinding assertion', 'not supported', 'unsupported', 'unexpected access to a shared value', 'unexpected access to a string',
             'unexpected conversion to a string', 'recursion unwinding', 'Unsupported', 'foreign function' , 'is not currently supported')

def run(cmd, timeout, cwd=HERE, env=None):
    p = subprocess.Popen(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
        return p.returncode, out, err
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, 9)
        except ProcessLookupError: pass
        out, err = p.communicate()
        return None, out, err

# ===== Kani ===== #

def harnesses(feature):
    """All harnesses of a feature, in order: name -> meta"""
    src = open(os.path.join(HERE, 'kani/src/%s.rs' % feature)).read()
    src = re.sub(r'//.*', '', src)
    names = re.findall(r'\b\w*proof!\(\s*(\w+)\s*,', src) + re.findall(r'#\[kani::proof[^\]]*\](?:\s*#\[[^\]]*(?:\[[^\]]*\][^\]]*)*\])*\s*fn\s+(\w+)', src)
    return [feature + '::' + n for n in names]

def kani_parse(text, feats):
    res = {}; cur = {}
    for block in re.split(r'(?m)^(?=Thread \d+:|Checking harness )', text):
        m = re.match(r'(?:Thread (\d+): )?Checking harness (\S+?)\.\.\.', block)
        t = re.match(r'Thread (\d+):', block)
        t = t.group(1) if t else '0'
        if m: cur[t] = m.group(2)
        v = re.search(r'VERIFICATION:- (\w+)', block)
        if v and t in cur:
            h = cur[t]
            n = re.search(r'\*\* (\d+) of (\d+) failed', block)
            tm = re.search(r'Verification Time: ([\d.]+)s', block)
            failed = re.findall(r'Failed Checks: (.*(?:\n File: .*)?)', block)
            r = dict(checks=int(n.group(2)) if n else 0, failed=int(n.group(1)) if n else 0, time=float(tm.group(1)) if tm else 0.0, messages=[f.replace('\n', ' ') for f in failed])
            if v.group(1) == 'SUCCESSFUL': r['status'] = 'discharged'
            elif 'timed out' in block or 'out of memory' in block or 'CBMC failed' in block or not failed: r['status'] = 'undecided'; r['messages'].append('the solver gave no answer (time, memory or internal error)')
            elif all(any(u in f for u in UNDECIDED) for f in failed): r['status'] = 'undecided'
            else: r['status'] = 'failed'
            res[h] = r
    return res

def kani_run(feats, only=None):
    """Runs all harnesses of the features. Returns ({harness: result}, [notes])"""
    td = os.path.join(HERE, 'kani', 'target')
    env = dict(ENV, CARGO_TARGET_DIR=td)
    limit = 300 if TIER == 'quick' else 1500
    def go(fs):
        cmd = ['cargo', 'kani', '-Z', 'stubbing', '-Z', 'unstable-options', '--harness-timeout', '%ds' % limit, '--features', ','.join(fs), '-j', '8', '--output-format', 'terse']
        if only:
            for h in only: cmd += ['--exact', '--harness', h]
        return run(cmd, left(), os.path.join(HERE, 'kani'), env), cmd
    (rc, out, err), cmd = go(feats)
    res = kani_parse(out, feats); notes = []
    if rc not in (0, 1) or 'Manual Harness Summary' not in out:
        if not res:
            e = [l for l in err.split('\n') if re.match(r'error', l)]
            notes.append('kani did not complete on features %s: %s' % (','.join(feats), '; '.join(e[:4])))
            if len(feats) > 1 and time.time() - START < BUDGET / 2:
                for f in feats:
                    (rc, out, err), _ = go([f]); res.update(kani_parse(out, [f]))
    want = [h for f in feats for h in harnesses(f)]
    for h in want:
        if h not in res and (not only or h in only): res[h] = dict(status='undecided', checks=0, failed=0, time=0.0, messages=['no result: the harness did not compile against this tree, or the time was up'])
    return res, notes, ' '.join(cmd)

def playback(feature, harness):
    """The 8-byte values of the counterexample of a failing harness"""
    env = dict(ENV, CARGO_TARGET_DIR=os.path.join(HERE, 'kani', 'target'))
    rc, out, err = run(['cargo', 'kani', '-Z', 'stubbing', '-Z', 'unstable-options', '--features', feature, '--exact', '--harness', harness, '-Z', 'concrete-playback', '--concrete-playback=print', '--harness-timeout', '240s'], min(left(), 300), os.path.join(HERE, 'kani'), env)
    vals = []
    for m in re.finditer(r'vec!\[([\d, ]+)\]', out):
        b = [int(x) for x in m.group(1).split(',') if x.strip()]
        if len(b) in (4, 8): vals.append(int.from_bytes(bytes(b), 'little', signed=True))
    k = out.find('Concrete playback unit test')
    return vals, out[k:k + 4000] if k >= 0 else ''

# ===== Verus ===== #

SEMANTIC = ('postcondition not satisfied', 'precondition not satisfied', 'assertion failed', 'invariant not satisfied', 'possible arithmetic underflow', 'possible arithmetic overflow',
            'possible division by zero', 'decreases not satisfied', 'possible bit shift', 'recommendation not met', 'unreachable', 'possible array', 'loop invariant', 'cannot prove')

def verus_go(text, name, d, *args):
    f = os.path.join(d, name + '.rs'); open(f, 'w').write(text)
    rc, out, err = run(['verus', f, '--output-json', '--time', '--rlimit', '60' if TIER == 'quick' else '300', '--num-threads', '4', *args, '--', '--error-format=json'], min(left(), 400), d)
    try: j = json.loads(out[out.index('{'):])
    except Exception: j = {}
    msgs = []
    for l in err.split('\n'):
        try: q = json.loads(l)
        except Exception: continue
        if q.get('level') == 'error' and not q['message'].startswith('aborting due'):
            sp = [s for s in q.get('spans', [])]
            msgs.append((q['message'], '; '.join('line %d: %s' % (s['line_start'], ' '.join(t['text'].strip() for t in s['text'])) for s in sp[:3])))
    r = j.get('verification-results', {})
    return dict(ok=rc == 0 and r.get('errors', 1) == 0, verified=r.get('verified', 0), errors=r.get('errors', 0), msgs=msgs, ms=j.get('times-ms', {}).get('smt', {}).get('total', j.get('times-ms', {}).get('total', 0)) if isinstance(j.get('times-ms'), dict) else 0, raw=(err or '')[-2000:] if not msgs else '')

def verus_unit(unit):
    t = os.path.join(HERE, 'verus', unit + '.vt')
    res = dict(unit=unit, status='undecided', verified=0, errors=0, messages=[], functions=[], ms=0, canary='')
    res['assumed'] = [l.strip() for l in open(t) if re.search(r'\b(assume|external_body|assume_specification|admit)\b', l)]
    try: text, report = extract.build(t)
    except extract.Lost as e:
        res['messages'].append('extraction: %s' % e); return res
    except Exception as e:
        res['messages'].append('extraction: %r' % e); return res
    res['functions'] = report
    d = tempfile.mkdtemp(prefix='verif-verus-')
    try:
        r = verus_go(text, unit, d)
        res['verified'], res['errors'], res['ms'] = r['verified'], r['errors'], r['ms']
        if r['ok']:
            res['status'] = 'discharged'
            # Guard against vacuity: a contradiction must be rejected, for each extracted function
            text, _ = extract.build(t, True); c = verus_go(text, unit + '_canary', d, '--multiple-errors', '0')
            hit = set(int(m) for _, s in c['msgs'] for m in re.findall(r'!canary_\((\d+)\)', s))
            if len(hit) < len(report): # The first error of a function may be another one
                c = verus_go(text, unit + '_canary', d, '--multiple-errors', '4'); hit |= set(int(m) for _, s in c['msgs'] for m in re.findall(r'!canary_\((\d+)\)', s))
            bad = [report[i]['function'] for i in range(len(report)) if i not in hit]
            res['canary'] = '%d of %d functions reject a contradiction as their postcondition' % (len(report) - len(bad), len(report))
            if bad: res['status'] = 'undecided'; res['messages'].append('vacuous contract: ' + ', '.join(bad))
        else:
            res['messages'] = ['%s (%s)' % m for m in r['msgs']] or [r['raw'] or 'no answer']
            sem = [m for m, _ in r['msgs'] if any(s in m for s in SEMANTIC)]
            other = [m for m, _ in r['msgs'] if not any(s in m for s in SEMANTIC)]
            res['status'] = 'failed' if sem and not other else 'undecided'
    finally: shutil.rmtree(d, ignore_errors=True)
    return res

# ===== Replay ===== #

def replay_build():
    sh = '. /opt/vp/env.sh >/dev/null 2>&1; cd "$1/replay" && CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$1/replay/target" cargo build --offline --locked 2>&1'
    rc, out, err = run(['bash', '-c', sh, 'x', HERE], min(left(), 500))
    return rc == 0, out[-3000:]

def replay(pid, extra=()):
    d = tempfile.mkdtemp(prefix='verif-replay-')
    try:
        rc, out, err = run([os.path.join(HERE, 'replay/target/debug/replay'), pid, d], left(), d, dict(ENV, VERIF_TIER=TIER, VERIF_SEED=str(SEED), REPLAY_EXTRA=','.join(map(str, extra))))
        return json.loads(out.strip().split('\n')[-1])
    except Exception as e: return dict(evaluations=0, samples=[], fail=None, error='%s %s' % (e, (err or '')[-500:]))
    finally: shutil.rmtree(d, ignore_errors=True)

# ===== Main ===== #

def main(pid):
    u = UNITS[pid]; notes = []; violation = None
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    rfile = os.path.join(HERE, 'evidence', pid + '.replay.json')
    if os.path.exists(rfile): os.remove(rfile)
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        fr = ex.submit(lambda: (replay_build(), replay(pid)) if u.get('replay', True) else ((True, ''), None))
        fv = [ex.submit(verus_unit, v) for v in u.get('verus', [])]
        fk = ex.submit(kani_run, u['kani']) if u.get('kani') else None
        (built, blog), rep = fr.result()
        vs = [f.result() for f in fv]
        ks, knotes, kcmd = fk.result() if fk else ({}, [], '')
    notes += knotes
    canaries = {h: r for h, r in ks.items() if 'canary' in h}
    real = {h: r for h, r in ks.items() if 'canary' not in h}
    for h, r in canaries.items():
        if r['status'] == 'discharged': notes.append('the harnesses are vacuous: %s holds' % h)
    if not built: notes.append('the replay driver does not build against this tree: ' + blog[-600:]); rep = None
    if rep and rep.get('error'): notes.append('replay: ' + rep['error'])

    failedk = {h: r for h, r in real.items() if r['status'] == 'failed'}
    failedv = [v for v in vs if v['status'] == 'failed']
    detail = {}
    if rep and rep.get('fail'):
        violation = dict(kind='failing input', **rep['fail'])
    elif failedk:
        # Look for the failing input at the counterexample of the prover
        vals = []
        for h in list(failedk)[:3]:
            if time.time() - START > BUDGET - 60: break
            v, test = playback(h.split('::')[0], h); vals += v; detail[h] = test
        if built and vals:
            again = replay(pid, vals[:40])
            if again.get('fail'): violation = dict(kind='failing input', counterexample=vals, **again['fail'])
    if violation is None:
        hard = {h: r for h, r in failedk.items() if not h.endswith('_uf')}
        if hard or failedv:
            violation = dict(kind='failed obligation', obligations={**{'kani ' + h: r['messages'] for h, r in hard.items()}, **{'verus ' + v['unit']: v['messages'] for v in failedv}})
        for h in failedk:
            if h not in hard: notes.append('abstract obligation %s not discharged, and no failing input exists at its counterexample: undecided' % h)
    if violation is not None:
        violation.update(property=pid, rejected={**{'kani ' + h: r['messages'] for h, r in failedk.items()}, **{'verus ' + v['unit']: v['messages'] for v in failedv}}, prover_output=detail,
                         how_to='run the program with the interpreter built from /repo; or ./check.py %s' % pid)
        json.dump(violation, open(rfile, 'w'), indent=1)
    for h, r in real.items():
        if r['status'] == 'undecided': notes.append('undecided: kani %s: %s' % (h, '; '.join(r['messages'])[:300]))
    for v in vs:
        if v['status'] == 'undecided': notes.append('undecided: verus %s: %s' % (v['unit'], '; '.join(v['messages'])[:400]))

    proved = {h: r for h, r in real.items() if not h.endswith('_bounded')}
    bounded = {h: r for h, r in real.items() if h.endswith('_bounded')}
    kob = sum(r['checks'] for r in proved.values()); kdis = sum(r['checks'] for r in proved.values() if r['status'] == 'discharged')
    vob = sum(v['verified'] + v['errors'] for v in vs); vdis = sum(v['verified'] for v in vs)
    undec = sum(1 for r in proved.values() if r['status'] != 'discharged') + sum(1 for v in vs if v['status'] != 'discharged')
    assumptions = list(u.get('assumptions', [])) + [a for v in vs for a in ('assumed in verus/%s.vt: %s' % (v['unit'], l) for l in v['assumed'])]
    cov = dict(
        obligations=kob + vob + undec, discharged=kdis + vdis,
        checker_cmd='./check.py %s  (%s)' % (pid, '; '.join(([kcmd] if kcmd else []) + ['verus <extraction of verus/%s.vt>' % v['unit'] for v in vs])),
        trusted_base=u.get('trusted', []) + UNITS['_trusted'],
        functions_under_contract=u.get('functions', []) + [f['function'] for v in vs for f in v['functions']],
        contracts={'kani (cbmc)': {h: dict(status=r['status'], obligations=r['checks'], solver_s=r['time']) for h, r in proved.items()},
                   'verus (z3)': {v['unit']: dict(status=v['status'], verified=v['verified'], errors=v['errors'], smt_ms=v['ms'], vacuity=v['canary'], extraction=v['functions']) for v in vs}},
        bounded={'kani, bounded': {h: dict(status=r['status'], obligations=r['checks'], solver_s=r['time']) for h, r in bounded.items()}, 'replay programs (bounded, not counted as proved)': rep['evaluations'] if rep else 0},
        vacuity_canaries={h: r['status'] for h, r in canaries.items()},
        solver_s=round(sum(r['time'] for r in real.values()) + sum(v['ms'] for v in vs) / 1000.0, 1),
        samples=(rep or {}).get('samples', []), notes=notes)
    if u.get('level', 'proof') == 'exploration':
        cov.update(evaluations=(rep or {}).get('evaluations', 0), distinct_nontrivial=(rep or {}).get('evaluations', 0), rule=u.get('rule', ''))
    ev = dict(property=pid, tier=TIER if TIER in ('quick', 'thorough') else 'quick', seed=SEED, level=u.get('level', 'proof'), coverage=cov, assumptions=assumptions, wall_s=round(time.time() - START, 1), violations=1 if violation else 0)
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    for n in notes: print('note: ' + n)
    print('%s: %d of %d obligations discharged, %d bounded programs, %.0f s' % (pid, cov['discharged'], cov['obligations'], rep['evaluations'] if rep else 0, time.time() - START))
    for l in open(os.path.join(HERE, 'known-findings.txt')):
        m = re.match(r'known: property=(\w+) (.*)', l)
        if m and m.group(1) == pid: print('KNOWN-FINDING: property=%s %s' % m.groups())
    if violation:
        if violation['kind'] == 'failing input':
            print('failing program:\n%s\nexpected: %s\n%s' % (violation.get('program'), violation.get('expected'), violation.get('failure')))
            print('VIOLATION property=%s replay=%s' % (pid, rfile))
        else:
            print(json.dumps(violation['obligations'], indent=1)[:3000])
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rfile))
        sys.exit(1)

if __name__ == '__main__': main(sys.argv[1])
