"""python3 -m dpv check PID      decide one property on /repo's working tree
   python3 -m dpv replay FILE    run again the failing input of a replay file
   python3 -m dpv concrete PID.. development: bounded cases only
   python3 -m dpv prove PID..    development: obligations only"""
import sys, os, json, time, subprocess, signal, importlib, traceback
from collections import Counter
from dpv import common


def listed(ob):
    """Every obligation; where there are many, the discharged ones are counted by function and name."""
    one = lambda o: dict(name=o['name'], function=o.get('function'), backend=o.get('backend'), status=o['status'], seconds=round(o.get('seconds', 0), 4))
    if len(ob) <= 400:
        return [one(o) for o in ob]
    out = {}
    for o in ob:
        if o['status'] != 'discharged':
            out[len(out)] = one(o)
            continue
        k = (o.get('function'), o['name'].split('/')[-1], o.get('backend'))
        e = out.setdefault(k, dict(name=k[1], function=k[0], backend=k[2], status='discharged', number=0, seconds=0.))
        e['number'] += 1
        e['seconds'] = round(e['seconds'] + o.get('seconds', 0), 4)
    return list(out.values())


def run_concrete(pid, parent, scratch, budget, case=None, extra=None, seed=None):
    """Runs the concrete cases in a subprocess. Returns the list of case results."""
    out = os.path.join(scratch, 'concrete-%s-%s.jsonl' % (pid, seed))
    cmd = [common.VENV_PY, '-m', 'dpv.worker', pid, out, str(budget)]
    if case is not None:
        cmd += ['--case', json.dumps(case)]
    env = common.base_env(parent)
    if seed is not None:
        env['VERIF_SEED'], env['DPV_EXTRA_S'] = str(seed), str(budget)
    log = open(out + '.log', 'wb')
    p = subprocess.Popen(cmd, env=env, cwd=common.VERIF, stdout=log, stderr=subprocess.STDOUT, start_new_session=True)
    hang = False
    try:
        p.wait(timeout=budget + 150)
    except subprocess.TimeoutExpired:
        hang = True
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()
    log.close()
    results = []
    if os.path.exists(out):
        for line in open(out):
            try:
                results.append(json.loads(line))
            except ValueError:
                pass
    results = [r for r in results if r['status'] != 'end']
    if hang or (p.returncode != 0):
        cur = json.load(open(out + '.cur')) if os.path.exists(out + '.cur') else None
        tail = open(out + '.log', 'rb').read()[-1500:].decode(errors='replace')
        if p.returncode == 1 and not hang:
            # the driver itself failed: nothing of the package may be importable
            results.append({'case': cur, 'status': 'violation', 'msg': 'the package cannot be used\n' + tail})
        else:
            results.append({'case': cur, 'status': 'violation',
                            'msg': 'no answer' if hang else 'the process died (code %s)\n%s' % (p.returncode, tail)})
    return results


def contract_module(pid):
    try:
        return importlib.import_module('contracts.' + pid)
    except ModuleNotFoundError as e:
        if e.name in ('contracts', 'contracts.' + pid):
            return None
        raise


def run_obligations(pid):
    """Generates and discharges the obligations of a property from the present source. Never raises."""
    if common.TOOLS_SITE not in sys.path:
        sys.path.append(common.TOOLS_SITE)
    sys.path.insert(0, common.VERIF) if common.VERIF not in sys.path else None
    mod = contract_module(pid)
    if mod is None:
        return None
    from dpv.deductive import engine
    return engine.run(pid, mod)


def finding_of(pid, result):
    text = json.dumps(result.get('case')) + ' ' + str(result.get('msg'))
    for f in common.known_findings(pid):
        if all(m in text for m in f['match']):
            return f
    return None


def check(pid):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    props = {json.loads(l)['id']: json.loads(l) for l in open(os.path.join(common.VERIF, 'properties.jsonl'))}
    manifest = json.load(open(os.path.join(common.VERIF, 'MANIFEST.json')))
    level = [c['level'] for c in manifest['checks'] if c['property'] == pid]
    level = level[0] if level else 'exploration'
    print('%s %s' % (pid, props[pid]['title']))
    proof = run_obligations(pid)
    violations = []
    with common.Scratch() as s:
        try:
            parent = common.build(s)
            budget = 240 if tier == 'quick' else 700
            results = run_concrete(pid, parent, s, budget)
            # counterexamples of refuted obligations are replayed on the real code
            for o in (proof['obligations'] if proof else []):
                if o['status'] == 'refuted' and o.get('case'):
                    results += [dict(r, obligation=o['name']) for r in run_concrete(pid, parent, s, 100, case=o['case'])[-1:]]
            if proof and any(o['status'] != 'discharged' for o in proof['obligations']) and not any(r['status'] == 'violation' and finding_of(pid, r) is None for r in results):
                # an obligation is not accepted: a longer search for a failing input
                from concurrent.futures import ThreadPoolExecutor
                with ThreadPoolExecutor(6) as pool:
                    for r in pool.map(lambda k: run_concrete(pid, parent, s, 150, seed=seed + 7919 * k), range(1, 7)):
                        results += r
        except RuntimeError as e:
            results = [{'case': None, 'status': 'violation', 'msg': str(e)}]
    count = Counter(r['status'] for r in results)
    known = []
    for r in results:
        if r['status'] != 'violation':
            continue
        f = finding_of(pid, r)
        if f is not None:
            known.append(f)
            continue
        path = common.write_replay(pid, {'property': pid, 'case': r['case'], 'message': r['msg'], 'obligation': r.get('obligation'),
                                         'replay': 'cd /verif && python3 -m dpv replay <this file>'})
        violations.append((path, r['msg'], ''))
    if proof and not violations:
        # not accepted by the verifier.  Obligations that could not be generated at all (the source left the supported
        # subset) are no verdict: they are reported as undecided in the evidence and the bounded search above stands in
        bad = [o for o in proof['obligations'] if o['status'] in ('refuted', 'undecided')]
        if bad:
            path = common.write_replay(pid, {'property': pid, 'case': None, 'failed_obligations': bad,
                                             'message': 'the verifier does not accept these obligations; no failing input was found'})
            violations.append((path, '; '.join('%s: %s' % (o['name'], o['detail']) for o in bad)[:1500], ' no-failing-input-found'))
    write_evidence(pid, tier, seed, level, results, count, proof, violations, t0)
    for i in {f['id']: f for f in known}.values():
        print('KNOWN-FINDING: property=%s %s' % (pid, i['what']))
    if proof:
        c = Counter(o['status'] for o in proof['obligations'])
        print('obligations: %s' % dict(c))
        for o in proof['obligations']:
            if o['status'] != 'discharged':
                print('  %s %s: %s' % (o['status'], o['name'], str(o['detail'])[:300]))
    print('bounded cases: %s' % dict(count))
    for path, msg, tail in violations:
        print(msg[:2000])
        print('VIOLATION property=%s replay=%s%s' % (pid, path, tail))
    return 1 if violations else 0


def write_evidence(pid, tier, seed, level, results, count, proof, violations, t0):
    mod_doc = open(os.path.join(common.VERIF, 'dpv', 'concrete', pid + '.py')).read().split('"""')[1]
    distinct = {json.dumps(r['case'], sort_keys=True) for r in results if r['status'] == 'ok'}
    cov = {'evaluations': len(results), 'distinct_nontrivial': len(distinct),
           'rule': 'bounded side (%s): systematic products of configuration axes, each with fresh random data from VERIF_SEED; '
                   'a case counts as non-trivial when the real code returned and every comparison with the specification was made; '
                   'two cases are distinct when their configuration or data seed differ' % mod_doc.strip(),
           'samples': [r['case'] for r in results if r['status'] == 'ok'][:5],
           'bounded_skipped': count.get('skip', 0)}
    assumptions = []
    if proof:
        ob = proof['obligations']
        cov.update({'obligations': len(ob), 'discharged': sum(o['status'] == 'discharged' for o in ob),
                    'undecided': [dict(name=o['name'], why=str(o['detail'])[:300]) for o in ob if o['status'] in ('undecided', 'unsupported')][:200],
                    'refuted': [dict(name=o['name'], why=str(o['detail'])[:300]) for o in ob if o['status'] == 'refuted'][:200],
                    'obligation_list': listed(ob),
                    'functions_under_contract': proof['functions'], 'backends': proof['backends'],
                    'solver_seconds': round(sum(o.get('seconds', 0) for o in ob), 3),
                    'checker_cmd': 'python3 -m dpv prove ' + pid, 'trusted_base': proof['trusted'],
                    'self_test': proof.get('self_test'), 'bounded_functions': proof.get('bounded', [])})
        assumptions = proof['trusted']
    common.write_evidence(pid, {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
                                'assumptions': assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': len(violations)})


def replay(path):
    d = json.load(open(path))
    if d.get('case') is None:
        print(json.dumps(d, indent=1))
        return 1
    with common.Scratch() as s:
        parent = common.build(s)
        r = run_concrete(d['property'], parent, s, 100, case=d['case'])
    for x in r:
        print(x['status'], x['msg'])
    return 1 if any(x['status'] == 'violation' for x in r) else 0


def main(argv):
    if os.environ.get('PYTHONHASHSEED') != '0':
        # the order of sets decides the order of solver queries: the same on every run
        os.environ['PYTHONHASHSEED'] = '0'
        os.execv(sys.executable, [sys.executable, '-m', 'dpv'] + list(argv))
    os.chdir(common.VERIF)
    if argv[0] == 'check':
        return check(argv[1])
    if argv[0] == 'replay':
        return replay(argv[1])
    if argv[0] == 'prove':
        for pid in argv[1:]:
            t = time.time()
            p = run_obligations(pid)
            if p is None:
                print(pid, 'no contracts')
                continue
            print(pid, dict(Counter(o['status'] for o in p['obligations'])), '%.1fs' % (time.time() - t))
            print('  self test', p['self_test'])
            for o in p['obligations']:
                print('  %-10s %s %.2fs %s' % (o['status'], o['name'], o.get('seconds', 0), '' if o['status'] == 'discharged' else o['detail']))
        return 0
    if argv[0] == 'concrete':
        with common.Scratch() as s:
            parent = common.build(s)
            for pid in argv[1:]:
                t = time.time()
                r = run_concrete(pid, parent, s, 300)
                print(pid, dict(Counter(x['status'] for x in r)), '%.1fs' % (time.time() - t))
                for x in r:
                    if x['status'] != 'ok':
                        print('   ', x['case'], x['msg'][:1500])
        return 0
    print(__doc__)
    return 2
