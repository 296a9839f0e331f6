#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--repo DIR] [--no-replay]

Decides one property: exports the typed SSA of the code in /repo, generates and discharges every proof
obligation of the contracts the property rests on, and reports.  Exit 0: all discharged (recorded
findings aside); exit 1 with a VIOLATION line otherwise."""
import sys, os, json, time, subprocess, tempfile, shutil, multiprocessing, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
EV = os.environ.get('VERIF_EV') or os.path.join(HERE, 'evidence')
PY = '/opt/veriftools/pyvenv/bin/python3'
if not os.environ.get('VC_INNER') and os.path.realpath(sys.executable) != os.path.realpath(PY) or 'z3' not in sys.modules:
    try:
        import z3
    except ImportError:
        os.environ['VC_INNER'] = '1'
        exe = shutil.which('python3-vt') or PY
        os.execv(exe, [exe] + sys.argv)
sys.path.insert(0, os.path.join(HERE, 'vc'))


def goenv():
    e = dict(os.environ)
    e.update(GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GONOSUMDB='*', GONOSUMCHECK='1', GOFLAGS_='')
    e.setdefault('HOME', '/root')
    e['PATH'] = '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:' + e.get('PATH', '')
    return e


def export(repo, tmp):
    """the SSA of the repository's current source; returns the path or raises with the compiler's words"""
    exe = os.path.join(tmp, 'govc')
    r = subprocess.run(['go', 'build', '-o', exe, '.'], cwd=os.path.join(HERE, 'govc'), env=goenv(), capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError('building govc: ' + r.stderr[-2000:])
    out = os.path.join(tmp, 'ssa.json')
    r = subprocess.run([exe, '-dir', repo, '-dep', 'github.com/mindstand/gotime', '-o', out], cwd=repo, env=goenv(), capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError('loading %s: %s' % (repo, r.stderr[-2000:]))
    return out


def worker(q, name, ssa, known, budget):
    t0 = time.time()
    res = {'unit': name, 'obl': [], 'error': None, 'findings': []}
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        sys.setrecursionlimit(20000)
        from ssa import Prog
        from prove import Prover
        import core, units
        P = Prog(ssa)
        ex = Prover(P)
        ex.findings = []
        ex.known = known
        ex.deadline = t0 + budget
        u = units.UNITS[name]
        try:
            u.run(P, ex)
        except core.Unsupported as e:
            res['error'] = 'outside the subset the verifier handles: %s (at %s)' % (e, ex.curline)
        except RecursionError:
            res['error'] = 'verifier recursion limit'
        except Exception as e:
            res['error'] = 'verifier gave up: %s\n%s' % (e, traceback.format_exc()[-1500:])
        for o in ex.obl:
            tr = ['%s:%s' % (x[0][0], x[0][1]) if isinstance(x, tuple) else str(x) for x in o.trace[-12:]] if not o.ok else []
            res['obl'].append((o.name, bool(o.ok), '' if o.ok else o.why[:600], tr, '' if o.ok or o.model is None else str(o.model)[:1500]))
        res['findings'] = list(ex.findings)
        res['functions'] = sorted(u.functions)
        res['inlined'] = sorted(ex.inlined)
        res['contracts'] = sorted(ex.used_contracts)
        res['trusted'] = sorted(ex.used_models)
        res['implax'] = sorted(str(x) for x in ex.implax)
        res['smt_s'] = round(core.SMT.time, 2)
        res['queries'] = core.SMT.calls
        res['paths'] = ex.paths
        res['bounded'] = list(getattr(ex, 'bounded', ()))
    except BaseException as e:
        res['error'] = 'verifier failed: %s\n%s' % (e, traceback.format_exc()[-1500:])
    res['wall_s'] = round(time.time() - t0, 2)
    q.put(res)


def run_units(names, ssa, known, budget):
    ctx = multiprocessing.get_context('fork')
    q = ctx.Queue()
    todo = list(names)
    live, out = {}, []
    while todo or live:
        while todo and len(live) < 7:
            n = todo.pop(0)
            p = ctx.Process(target=worker, args=(q, n, ssa, known, budget))
            p.start()
            live[n] = (p, time.time())
        try:
            r = q.get(timeout=2)
            out.append(r)
            p, _ = live.pop(r['unit'])
            p.join(20)
            if p.is_alive():
                p.kill()
            continue
        except Exception:
            pass
        for n, (p, t) in list(live.items()):
            dead = not p.is_alive()
            late = time.time() - t > budget + 60
            if dead or late:
                # the result may still be in the queue
                try:
                    r = q.get(timeout=3)
                    out.append(r)
                    live.pop(r['unit'])[0].join(20)
                    break
                except Exception:
                    pass
                if late:
                    p.kill()
                out.append({'unit': n, 'obl': [], 'error': 'verifier process %s' % ('out of time' if late else 'died'), 'findings': []})
                live.pop(n, None)
    order = {n: i for i, n in enumerate(names)}
    return sorted(out, key=lambda r: order[r['unit']])


def dictionary(repo, tmp):
    """what the source mentions by name and number, as candidates for inputs treated specially"""
    import re
    words, nums, hot = {}, {}, {}
    for d, ds, fs in os.walk(repo):
        ds[:] = sorted(x for x in ds if not x.startswith('.'))
        for f in sorted(fs):
            if not f.endswith('.go') or f.endswith('_test.go'):
                continue
            src = open(os.path.join(d, f), errors='replace').read()
            src = re.sub(r'(?s)import \(.*?\)', '', src, 1)
            src = re.sub(r'(?m)(^|\s)//.*$', '', src)
            for w in re.findall(r'(?:[=!<>]=|\bcase|,)\s*"([^"\\\n%]{1,24})"', src) + re.findall(r'"([^"\\\n%]{1,24})"\s*[=!]=', src):
                hot[w] = 1
            for w in re.findall(r'"([^"\\\n%]{1,24})"', src):
                if ' ' not in w.strip() or len(w) < 8:
                    words[w] = 1
            for n in re.findall(r'(?<![\w.])(0x[0-9a-fA-F]{1,15}|\d{1,18})(?![\w.])', re.sub(r'"[^"\n]*"', '', src)):
                nums[int(n, 0)] = 1
    p = os.path.join(tmp, 'dict.json')
    json.dump({'words': list(words), 'nums': list(nums), 'hot': list(hot)}, open(p, 'w'))
    return p


def replay(prop, repo, tmp, seed, seconds):
    """search the real code for a failing input; returns (found record or None, note)"""
    src = os.path.join(HERE, 'replay')
    if not os.path.isdir(os.path.join(src, prop.lower())) and not os.path.exists(os.path.join(src, 'main.go')):
        return None, 'no replay harness'
    mod = os.path.join(tmp, 'replay')
    shutil.copytree(src, mod)
    gm = open(os.path.join(repo, 'go.mod')).read()
    import re
    reqs = re.findall(r'^\s*([\w./\-]+\.[\w./\-]+)\s+(v[\w.\-+]+)', gm, re.M)
    gv = re.search(r'^go\s+([\d.]+)', gm, re.M)
    with open(os.path.join(mod, 'go.mod'), 'w') as f:
        f.write('module verifreplay\n\ngo %s\n\nrequire github.com/mindstand/go-bolt v0.0.0\n' % (gv.group(1) if gv else '1.21'))
        for m, v in reqs:
            f.write('require %s %s\n' % (m, v))
        f.write('replace github.com/mindstand/go-bolt => %s\n' % os.path.abspath(repo))
    shutil.copy(os.path.join(repo, 'go.sum'), os.path.join(mod, 'go.sum'))
    exe = os.path.join(tmp, 'replaybin')
    race = ['-race'] if prop in ('C17', 'C22') else []
    r = subprocess.run(['go', 'build'] + race + ['-o', exe, '.'], cwd=mod, env=goenv(), capture_output=True, text=True)
    if r.returncode and race:
        r = subprocess.run(['go', 'build', '-o', exe, '.'], cwd=mod, env=goenv(), capture_output=True, text=True)
    if r.returncode:
        return None, 'replay harness does not build against this tree: ' + r.stderr[-800:]
    env = goenv()
    env['VERIF_DICT'] = dictionary(repo, tmp)
    try:
        r = subprocess.run([exe, '-prop', prop, '-seed', str(seed), '-seconds', str(seconds)], cwd=tmp, env=env, capture_output=True, timeout=seconds + 200)
    except subprocess.TimeoutExpired:
        return None, 'replay harness ran out of time'
    txt = r.stdout.decode('utf8', 'replace')
    for line in txt.splitlines():
        if line.startswith('FOUND '):
            return json.loads(line[6:]), ''
    err = r.stderr.decode('utf8', 'replace')
    if 'WARNING: DATA RACE' in err:
        doing = [l for l in txt.splitlines() if l.startswith('DOING ')]
        i = err.index('WARNING: DATA RACE')
        return {'what': 'unsynchronised access to shared state', 'input': doing[-1][6:] if doing else '', 'got': err[i:i + 1800]}, ''
    if r.returncode not in (0, 3):
        err = r.stderr.decode('utf8', 'replace')
        if 'panic:' in err or 'fatal error:' in err or 'goroutine ' in err:
            doing = [l for l in txt.splitlines() if l.startswith('DOING ')]
            return {'what': 'the code under test crashed the process', 'input': doing[-1][6:] if doing else '', 'got': err[:1500]}, ''
        return None, 'replay harness failed: ' + err[-500:]
    return None, txt[-300:]


def known_findings():
    known, lines = {}, []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known:'):
                d = dict(x.split('=', 1) for x in l.split()[1:3])
                known[d['key']] = (d['property'], l.split(None, 3)[3])
    return known


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--repo', default='/repo')
    ap.add_argument('--no-replay', action='store_true')
    ap.add_argument('--ssa')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tmp = tempfile.mkdtemp(prefix='vc.')
    try:
        code = decide(a, t0, seed, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(code)


def decide(a, t0, seed, tmp):
    prop = a.prop
    import units
    spec = units.PROPS[prop]
    known = known_findings()
    mine = {k for k, (p, _) in known.items() if p == prop}
    bad, results, err = [], [], None
    budget = 500 if a.tier == 'quick' else 1500
    try:
        ssa = a.ssa or export(a.repo, tmp)
        results = run_units(spec['units'], ssa, set(known), budget)
    except RuntimeError as e:
        err = str(e)
    flt = spec.get('only')
    total = done = 0
    btotal, bdone = {}, {}
    per = []
    for r in results:
        obl = [o for o in r['obl'] if flt is None or flt(r['unit'], o[0])]
        good = [o for o in obl if o[1]]
        if r['unit'] in units.BOUNDED:
            btotal[r['unit']], bdone[r['unit']] = len(obl), len(good)
        else:
            total += len(obl)
            done += len(good)
        for o in obl:
            if not o[1]:
                bad.append({'unit': r['unit'], 'obligation': o[0], 'verifier': o[2], 'path': o[3], 'model': o[4]})
        if r['error']:
            bad.append({'unit': r['unit'], 'obligation': 'every obligation of unit %s is generated' % r['unit'], 'verifier': r['error'], 'path': [], 'model': ''})
        elif not obl:
            bad.append({'unit': r['unit'], 'obligation': 'unit %s generates obligations' % r['unit'], 'verifier': 'none generated', 'path': [], 'model': ''})
        per.append({k: r.get(k) for k in ('unit', 'wall_s', 'smt_s', 'queries', 'paths', 'functions', 'inlined', 'contracts')} | {'obligations': len(obl), 'discharged': len(good)})
    if err:
        bad.append({'unit': 'export', 'obligation': 'the code loads', 'verifier': err, 'path': [], 'model': ''})
    findings = sorted({f for r in results for f in r['findings'] if f in mine})
    trusted = sorted({t for r in results for t in r.get('trusted', [])})
    proved = {}
    for t in trusted:
        if t in units.PROVED:
            u, by = units.PROVED[t]
            if u not in spec['units']:
                proved[t] = by
            trusted = [x for x in trusted if x != t]
    # bounded stand-ins
    bounded = None
    found = note = None
    if spec.get('bounded') and not bad and not a.no_replay:
        found, note = replay(prop, a.repo, tmp, seed, 20 if a.tier == 'quick' else 120)
        bounded = {'what': spec['bounded'], 'seconds': 20 if a.tier == 'quick' else 120, 'result': 'violation' if found else note}
        if found:
            bad.append({'unit': 'bounded', 'obligation': 'bounded check: ' + spec['bounded'], 'verifier': found.get('what', ''), 'path': [], 'model': ''})
    elif bad and not a.no_replay:
        secs = max(20, min(120, 780 - (time.time() - t0)))
        found, note = replay(prop, a.repo, tmp, seed, int(secs))
    os.makedirs(EV, exist_ok=True)
    wall = round(time.time() - t0, 2)
    ev = {'property': prop, 'tier': a.tier, 'seed': seed, 'level': spec.get('level', 'proof'),
          'coverage': {'obligations': total, 'discharged': done, 'checker_cmd': 'python3 check.py %s' % prop,
                       'trusted_base': ['go/ssa and go/types of x/tools (source to SSA)', 'the verifier in /verif/vc', 'z3'] +
                       ['assumed contract: ' + t for t in trusted] +
                       ['contract whose obligations the check of %s discharges: %s' % (by, t) for t, by in sorted(proved.items())],
                       'back_end': 'z3 (python bindings)', 'solver_s': round(sum(r.get('smt_s', 0) for r in results), 2),
                       'functions_under_contract': sorted({f for r in results for f in r.get('functions', [])}),
                       'functions_executed_in_place': sorted({f for r in results for f in r.get('inlined', [])}),
                       'units': per, 'known_findings': findings},
          'assumptions': units.ASSUME + spec.get('assume', []), 'wall_s': wall, 'violations': len(bad)}
    if bounded:
        ev['coverage']['bounded_search'] = bounded
    if btotal:
        ev['coverage']['bounded'] = [{'unit': u, 'bound': units.BOUNDED[u], 'obligations': btotal[u], 'discharged': bdone[u]} for u in sorted(btotal)]
    for r in results:
        for b in r.get('bounded') or ():
            ev['coverage'].setdefault('bounded', []).append({'unit': r['unit'], 'bound': b})
    if spec.get('explanation'):
        ev['coverage']['explanation'] = spec['explanation']
    json.dump(ev, open(os.path.join(EV, prop + '.json'), 'w'), indent=1)
    for f in findings:
        print('KNOWN-FINDING: property=%s %s' % (prop, known[f][1]))
    print('%s: %d of %d obligations discharged%s in %.1f s' % (prop, done, total,
          ', and %d of %d of bounded units' % (sum(bdone.values()), sum(btotal.values())) if btotal else '', wall))
    if not bad:
        return 0
    seen = set()
    for b in bad:
        k = b['obligation']
        if k in seen or len(seen) > 12 and not a.v:
            continue
        seen.add(k)
        print('FAILED OBLIGATION %s: %s' % (b['obligation'], ' '.join(b['verifier'].split())[:400]))
    rp = os.path.join(EV, 'replay-%s.json' % prop)
    json.dump({'property': prop, 'failed_obligations': bad[:60], 'failing_input': found, 'replay_note': note,
               'how': 'python3 check.py %s; the failing input was run against the real code by /verif/replay' % prop}, open(rp, 'w'), indent=1)
    print('VIOLATION property=%s replay=%s%s' % (prop, rp, '' if found else ' no-failing-input-found'))
    return 1


if __name__ == '__main__':
    main()
