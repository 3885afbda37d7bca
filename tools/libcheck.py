"""Checks of library code (constraints, extensions, client): TLC enumerates the
cases of a family from the specification, a driver puts each one through the real
library (vp-lib for the Rust crates, vp-idl for the IDL reader, harness/js for the
JavaScript clients and the published IDLs), and TLC judges what it made of it."""
import collections, json, os, re, shutil, subprocess, sys


def is_js(f): return f.startswith('js') or f == 'idl'


def driver(m, f, d, bundle):
    if is_js(f): return ['node', '--stack-size=4000', bundle, f, d]
    return [os.path.join(m.TARGET, 'debug', 'vp-idl' if f == 'elf' else 'vp-lib'), f, d]


def run(m, plan):
    b = m.start_build(plan['packages'], plan.get('clean', ())) if plan['packages'] else None
    bundle = os.path.join(m.SCRATCH, 'clients.cjs')
    if any(is_js(f) for f in plan['families']):
        r = subprocess.run(['bash', os.path.join(m.VERIF, 'harness', 'js', 'build.sh'), bundle], capture_output=True, text=True)
        if r.returncode != 0:
            sys.stdout.write(r.stderr[-3000:])
            m.fail('the JavaScript clients do not bundle')
    dirs = []
    for f in plan['families']:
        d = m.spec_dir('l_' + f)
        with open(os.path.join(d, 'Family.tla'), 'w') as fh:
            fh.write('---- MODULE Family ----\nEXTENDS L_%s\n====\n' % f)
        rc = m.tlc(d, 'LGen.tla', 'LGen.cfg', 'gen.txt', ['-seed', str(m.SEED * 7919 + 13)])
        text = open(os.path.join(d, 'gen.txt'), errors='replace').read()
        if rc != 0 or '"cases"' not in text:
            sys.stdout.write(text[-3000:])
            m.fail('TLC did not generate family %s (rc %d)' % (f, rc))
        dirs.append((f, d))
    m.log('TLC generated', ', '.join(plan['families']))
    if b: m.wait_build(b)
    total, distinct, parts, bad, samples = 0, 0, [], [], []
    for f, d in dirs:
        cases = open(os.path.join(d, 'cases.ndjson')).read().splitlines()
        if not cases: m.fail('no cases in family ' + f)
        cmds = [driver(m, f, d, bundle)] + ([[m.RUNNER, 'rawseq', d]] if f in plan.get('execute', []) else [])
        crashed = False
        for cmd in cmds:
            r = subprocess.run(['timeout', '2400'] + cmd, cwd=d, capture_output=True, text=True)
            if r.returncode != 0:
                sys.stdout.write(r.stderr[-3000:])
                if r.returncode == 2 or is_js(f) and cmd[0] == 'node': m.fail('%s failed on family %s' % (os.path.basename(cmd[0]), f))
                at = len(open(os.path.join(d, 'obs.ndjson')).readlines()) if os.path.exists(os.path.join(d, 'obs.ndjson')) else 0
                bad.append(('CRASH', {'family': f, 'case': json.loads(cases[min(at, len(cases) - 1)]), 'obs': 'the library aborted (rc %d)' % r.returncode}))
                crashed = True
                break
        if crashed: continue
        obs = open(os.path.join(d, 'obs.ndjson')).read().splitlines()
        rc = m.tlc(d, 'LJudge.tla', 'Judge.cfg', 'out.txt')
        text = open(os.path.join(d, 'out.txt'), errors='replace').read()
        found = [(k, int(n)) for k, n in re.findall(r'<<\s*"BAD",\s*"(\w+)",\s*(\d+)\s*>>', text)]
        if any(k == 'MODEL' for k, _ in found):
            n = [n for k, n in found if k == 'MODEL'][0]
            m.fail('the specification does not have the property on %s' % cases[n - 1][:2000])
        for k, n in found:
            bad.append((k, {'family': f, 'case': json.loads(cases[n - 1]), 'obs': json.loads(obs[n - 1])}))
        if rc != 0 and not found:
            sys.stdout.write(text[-3000:])
            # what the library produced lies outside what the specification can even describe
            n = re.findall(r'/\\ l = (\d+)|^l = (\d+)', text, re.M)
            n = int([x for x in n[-1] if x][0]) if n else 1
            bad.append(('UNDEFINED', {'family': f, 'case': json.loads(cases[n - 1]), 'obs': json.loads(obs[n - 1])}))
        kinds = collections.Counter(json.loads(c).get('k', '') for c in cases)
        m.log('judged', f, dict(kinds), 'bad', len(found))
        parts.append({'family': f, 'cases': len(cases), 'kinds': dict(kinds), 'bad': len(found)})
        total += len(cases)
        distinct += len(set(c for c in cases if len(c) > 24))
        s = min(range(len(cases)), key=lambda j: abs(len(cases[j]) - 300))
        samples.append({'family': f, 'case': json.loads(cases[s]), 'observed': obs[s][:600]})
        shutil.rmtree(d, ignore_errors=True)
    m.evidence({'evaluations': total, 'distinct_nontrivial': distinct,
                'rule': 'TLC enumerates the cases of each family from the specification; a case counts as distinct and non-trivial '
                        'if it differs from every other case of its family and its content is not empty',
                'samples': samples[:3], 'families': parts}, len(bad), level='exploration',
               assumptions=['cases outside the bounds of the families are not explored',
                            'Rust code is compiled natively instead of to SBF; the packages of the JavaScript clients that are not '
                            'installed here (umi and its serializers) are stood in for by harness/js'])
    if bad:
        bad.sort(key=lambda x: len(json.dumps(x[1])))
        k, rec = bad[0]
        m.log('case:', json.dumps(rec['case'])[:1500])
        m.log('observed:', json.dumps(rec['obs'])[:1500])
        m.report(k, rec)
        return 1
    m.log('%s held on %d cases' % (m.PROP, total))
    return 0
