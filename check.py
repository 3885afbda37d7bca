#!/usr/bin/env python3
"""check.py <property>: decides one property of the list on /repo's working tree.

Builds the real programs from /repo, has TLC explore the specification's bounded
universes (checking the property on the specification), replays everything TLC
enumerated into the real programs, and has TLC judge every disagreement.
Exit 0: held; 1: violated (VIOLATION line); 2: the check could not be carried out.
"""
import collections, concurrent.futures, json, os, random, re, shutil, subprocess, sys, time, hashlib

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'tools'))
from plan import PLAN

PROP = sys.argv[1]
TIER = os.environ.get('VERIF_TIER', 'quick')
if len(sys.argv) > 2: TIER = sys.argv[2]
SEED = int(os.environ.get('VERIF_SEED', '1'))
DEEP = TIER == 'thorough'
T0 = time.time()
SCRATCH = os.path.join(VERIF, 'scratch', '%s-%d' % (PROP, os.getpid()))
TARGET = os.path.join(VERIF, 'target')
RUNNER = os.path.join(TARGET, 'debug', 'vp-runner')
EVID = os.path.join(VERIF, 'evidence')
CORES = os.cpu_count() or 4


def log(*a):
    print('[%6.1f]' % (time.time() - T0), *a, flush=True)


def fail(msg):
    log('ERROR:', msg)
    shutil.rmtree(SCRATCH, ignore_errors=True)
    sys.exit(2)


def start_build(packages, clean=()):
    """cargo build of the harness (and with it of /repo's crates)"""
    sh = '. %s/harness/env.sh; export CARGO_TARGET_DIR=%s; cd %s/harness; %s exec cargo build --offline %s' % (
        VERIF, TARGET, VERIF, ' '.join('cargo clean --offline -p %s;' % p for p in clean), ' '.join('-p ' + p for p in packages))
    f = open(os.path.join(SCRATCH, 'build.log'), 'w')
    return subprocess.Popen(['bash', '-c', sh], stdout=f, stderr=subprocess.STDOUT)


def wait_build(p):
    if p.wait() != 0:
        sys.stdout.write(''.join(open(os.path.join(SCRATCH, 'build.log')).readlines()[-40:]))
        fail('the programs do not build')
    log('programs built')


def spec_dir(name, keys=None):
    d = os.path.join(SCRATCH, name)
    os.makedirs(d)
    for f in os.listdir(os.path.join(VERIF, 'spec')):
        if f.endswith(('.tla', '.cfg')):
            shutil.copy(os.path.join(VERIF, 'spec', f), d)
    with open(os.path.join(d, 'Tier.tla'), 'w') as f:
        f.write('---- MODULE Tier ----\nDeep == %s\nSeed == %d\n====\n' % ('TRUE' if DEEP else 'FALSE', SEED % 9973))
    if keys is not None:
        open(os.path.join(d, 'Keys.tla'), 'w').write(keys)
    open(os.path.join(d, 'JudgeCfg.tla'), 'w').write(
        '---- MODULE JudgeCfg ----\nProp == "%s"\nFocus == {"%s"}\n====\n' % (PROP, PROP))
    return d


def tlc(d, module, cfg, out, args=(), workers=CORES, limit=3000):
    cmd = ['timeout', str(limit), 'tlc', '-workers', str(workers), '-metadir', os.path.join(d, 'md'),
           '-config', cfg] + list(args) + [module]
    with open(os.path.join(d, out), 'w') as f:
        rc = subprocess.call(cmd, cwd=d, stdout=f, stderr=subprocess.STDOUT)
    shutil.rmtree(os.path.join(d, 'md'), ignore_errors=True)
    shutil.rmtree(os.path.join(d, 'states'), ignore_errors=True)
    return rc


def tlc_text(path):
    """TLC's own messages, without the printed transitions"""
    with open(path, errors='replace') as f:
        return ''.join(l[:600] if len(l) < 600 else l[:600] + '\n' for l in f if not l.startswith('"{'))


def explore(u, keys=None, workers=CORES):
    """runs TLC on universe u; returns (directory, statistics)"""
    d = spec_dir('u_%s%s' % (u['name'], '' if keys is None else '_k'), keys)
    with open(os.path.join(d, 'Universe.tla'), 'w') as f:
        f.write('---- MODULE Universe ----\nEXTENDS U_%s\n====\n' % u['name'])
    args = []
    if u.get('sim'):
        num, depth = u['sim'][1 if DEEP else 0]
        args = ['-simulate', 'num=%d' % max(1, num // CORES), '-depth', str(depth), '-seed', str(SEED * 7919 + 13)]
    rc = tlc(d, 'Explore.tla', 'MC.cfg', 'out.txt', args, CORES if u.get('sim') else workers)
    text = tlc_text(os.path.join(d, 'out.txt'))
    if rc != 0 or 'Error:' in text:
        sys.stdout.write(text[-4000:])
        fail('TLC did not complete on universe %s (rc %d)' % (u['name'], rc))
    st = {'universe': u['name'], 'mode': 'simulation' if u.get('sim') else 'exhaustive'}
    m = re.findall(r'(\d+) states generated(?:.*?, (\d+) distinct states found)?', text.replace(',', ''))
    m2 = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct', text)
    if m2:
        st['states_generated'], st['distinct_states'] = [int(x.replace(',', '')) for x in m2[-1]]
    m3 = re.findall(r'The depth of the complete state graph search is (\d+)', text)
    if m3: st['depth'] = int(m3[-1])
    return d, st


def replay(d, codes=False):
    env = dict(os.environ, VP_WORKERS=str(CORES))
    if codes: env['VP_ERRORS'] = '1'
    rc = subprocess.run(['timeout', '3000', RUNNER, 'replay', 'out.txt', 'div.ndjson'], cwd=d, capture_output=True, text=True, env=env)
    if rc.returncode != 0:
        sys.stdout.write(rc.stdout[-2000:] + rc.stderr[-4000:])
        fail('replay failed')
    return json.loads(rc.stdout.strip().splitlines()[-1])


def sample_transition(path):
    """one explored transition, for the evidence"""
    with open(path, errors='replace') as f:
        ins, n, pick = None, 0, None
        for l in f:
            if not l.startswith('"{'): continue
            v = json.loads(json.loads(l))
            if 'instrs' in v: ins = v['instrs']; continue
            n += 1
            if v['ok']: pick = v
            if n > 40: break
    if not ins or not pick: return None
    e = pick['ok'][-1]
    return {'state': pick['s'], 'instruction': ins[e['i'] - 1], 'changes': e['c'],
            'balances': {k: x for k, x in e['dl'].items() if x}}


def signature(r):
    ch = []
    for s, v in sorted(r['post'].items()):
        p = r['pre'][s]
        if v != p:
            ch.append(v['k'] + ':' + ','.join(sorted(k for k in set(v) | set(p) if v.get(k) != p.get(k))))
    a = r['pre'].get(r['i']['acc'][0] if r['i']['acc'] else '', {})
    return (r['i']['op'], r['ok'], r.get('eok'), tuple(ch), a.get('k'), a.get('st'), a.get('std'), a.get('mut'),
            a.get('group', '-') == '-', r['i'].get('cpi'))


def judge(recs, prop):
    """TLC's verdict on observed transitions; list of (kind, record)"""
    if not recs: return []
    d = spec_dir('judge_' + prop, KEYS)
    with open(os.path.join(d, 'obs.ndjson'), 'w') as f:
        for r in recs:
            f.write(json.dumps({k: r[k] for k in ('pre', 'i', 'ok', 'post', 'dl')}) + '\n')
    rc = tlc(d, 'Judge.tla', 'Judge.cfg', 'out.txt')
    text = open(os.path.join(d, 'out.txt'), errors='replace').read()
    bad = [(k, recs[int(n) - 1]) for k, n in re.findall(r'<<\s*"BAD",\s*"(\w+)",\s*(\d+)\s*>>', text)]
    if rc != 0 and not bad:
        sys.stdout.write(text[-3000:])
        # the observation lies outside what the specification can even describe
        bad = [('UNDEFINED', recs[0])]
    return bad


def judge_codes(d):
    """TLC's verdict on the error codes of the refusals; list of (kind, record)"""
    if KEYS is not None: open(os.path.join(d, 'Keys.tla'), 'w').write(KEYS)
    rc = tlc(d, 'EJudge.tla', 'Judge.cfg', 'codes.txt', workers=CORES if DEEP else (CORES + 1) // 3)
    text = open(os.path.join(d, 'codes.txt'), errors='replace').read()
    found = re.findall(r'<<\s*"BAD",\s*(\d+),\s*(\d+),\s*(-?\d+)\s*>>', text)
    if rc != 0 and not found:
        sys.stdout.write(text[-3000:])
        fail('the error codes could not be judged')
    if not found: return []
    ins = json.load(open(os.path.join(d, 'instrs.json')))
    obs = open(os.path.join(d, 'errs.ndjson')).readlines()
    out = []
    for l, x, c in found[:200]:
        o = json.loads(obs[int(l) - 1])
        out.append(('CODE', {'pre': o['s'], 'i': ins[o['e'][int(x) - 1][0] - 1], 'ok': False, 'post': o['s'], 'code': int(c)}))
    return out


def report(kind, rec, extra=''):
    os.makedirs(os.path.join(EVID, 'replays'), exist_ok=True)
    path = os.path.join(EVID, 'replays', '%s.json' % PROP)
    with open(path, 'w') as f:
        json.dump({'property': PROP, 'kind': kind, 'observed': rec}, f, indent=1)
    if isinstance(rec, dict) and 'i' in rec:
        log('observed on the real program:', json.dumps(rec['i']), 'accepted' if rec['ok'] else 'refused')
        for s in rec['pre']:
            if s in rec['i']['acc'] or rec['pre'][s] != rec['post'][s]:
                log('   before %s: %s' % (s, json.dumps(rec['pre'][s])))
                if rec['pre'][s] != rec['post'][s]: log('   after  %s: %s' % (s, json.dumps(rec['post'][s])))
        if 'code' in rec: log('   reported error', rec['code'], '(negative: builtin code of the runtime), which is not what is wrong')
        if 'ec' in rec:
            log('   specified:', 'accepted' if rec['eok'] else 'refused', json.dumps(rec['ec']), json.dumps({k: v for k, v in rec['edl'].items() if v}))
            log('   balances: ', json.dumps({k: v for k, v in rec['dl'].items() if v}))
    print('VIOLATION property=%s replay=%s' % (PROP, path), flush=True)


def evidence(cov, violations, level='model_checking', assumptions=None):
    os.makedirs(EVID, exist_ok=True)
    e = {'property': PROP, 'tier': 'thorough' if DEEP else 'quick', 'seed': SEED, 'level': level, 'coverage': cov,
         'assumptions': assumptions or [], 'wall_s': round(time.time() - T0, 1), 'violations': violations}
    json.dump(e, open(os.path.join(EVID, PROP + '.json'), 'w'), indent=1)


def known_findings():
    """descriptions of the defects recorded (not repaired) for this property"""
    out = []
    for l in open(os.path.join(VERIF, 'known-findings.txt')):
        m = re.match(r'known: property=(\w+) (.*)', l)
        if m and m.group(1) == PROP: out.append(m.group(2).strip())
    return out


def explore_all(us, keys=None):
    """explores several universes at a time (small ones do not keep every core busy)"""
    n = 1 if DEEP else 3
    with concurrent.futures.ThreadPoolExecutor(n) as ex:
        return [(u,) + r for u, r in zip(us, ex.map(lambda u: explore(u, keys, max(1, (CORES + 1) // n)), us))]


ASSUME = ['the bank (accounts, CPI privileges, rent, realloc rules) of harness/runner/src/rt.rs models the Solana runtime',
          'programs are compiled natively with release arithmetic instead of to SBF']
KEYS = None


def check_programs(plan):
    """universes of the asset program"""
    global KEYS
    b = start_build(['vp-runner', 'vp-prog-asset', 'vp-prog-bridge', 'vp-prog-proxy'])
    dirs = explore_all(plan['universes'])
    log('TLC explored', ', '.join('%s' % x[2] for x in dirs))
    wait_build(b)
    keys = subprocess.run([RUNNER, 'genkeys'], capture_output=True, text=True).stdout
    if keys != open(os.path.join(VERIF, 'spec', 'Keys.tla')).read():
        log('program addresses differ from the committed ones: exploring again')
        KEYS = keys
        dirs = explore_all(plan['universes'], keys)
    states = trans = execd = 0
    divs, parts, samples, bad = [], [], [], []
    pending, judges = [], concurrent.futures.ThreadPoolExecutor(1 if DEEP else 3)
    for u, d, st in dirs:
        r = replay(d, plan.get('codes'))
        log('replayed', u['name'], {k: v for k, v in r.items() if k != 'accepted_refused'})
        if r['executed'] == 0 or r['succeeding'] == 0: fail('nothing was replayed in ' + u['name'])
        states += r['states']; trans += r['succeeding']; execd += r['executed']
        parts.append(dict(st, **r))
        s = sample_transition(os.path.join(d, 'out.txt'))
        if s: samples.append(s)
        if plan.get('codes'):
            # EJudge's Stride
            obs = open(os.path.join(d, 'errs.ndjson')).readlines()
            k = 1 if DEEP or len(obs) < 3000 else 3
            parts[-1]['codes_judged'] = sum(len(json.loads(o)['e']) for i, o in enumerate(obs) if (i + 1) % k == SEED % 9973 % k)
            pending.append((d, judges.submit(judge_codes, d)))
        for l in open(os.path.join(d, 'div.ndjson')):
            divs.append(json.loads(l))
        if not plan.get('codes'): shutil.rmtree(d, ignore_errors=True)
    for d, f in pending:
        bad += f.result()
        shutil.rmtree(d, ignore_errors=True)
    rnd = random.Random(SEED)
    rnd.shuffle(divs)
    groups = collections.defaultdict(list)
    for r in divs:
        g = groups[signature(r)]
        if len(g) < 40: g.append(r)
    recs = [r for g in groups.values() for r in g][:8000]
    log('%d disagreements, %d kept for judging' % (len(divs), len(recs)))
    if plan.get('codes'): recs = []
    bad += judge(recs, PROP)
    cov = {'states': states, 'transitions': trans, 'traces_validated_against_impl': execd, 'samples': samples[:3],
           'instructions_refused': execd - trans, 'universes': parts, 'disagreements_judged': len(recs),
           'exhaustive': all(not u.get('sim') for u, _, _ in dirs)}
    evidence(cov, len(bad), assumptions=ASSUME)
    if bad:
        bad.sort(key=lambda x: (x[0] != 'SAFE', len(json.dumps(x[1]))))
        report(*bad[0])
        return 1
    if plan.get('codes'): log('%s held: %d refusals judged' % (PROP, sum(x['codes_judged'] for x in parts)))
    else: log('%s held: %d states, %d accepted and %d refused instructions agreed' % (PROP, states, trans, execd - trans))
    return 0


def main():
    os.makedirs(SCRATCH, exist_ok=True)
    plan = PLAN[PROP]
    try:
        if plan.get('driver'):
            import importlib
            rc = importlib.import_module(plan['driver']).run(sys.modules['__main__'], plan)
        else:
            rc = check_programs(plan)
        for k in known_findings():
            print('KNOWN-FINDING: property=%s %s' % (PROP, k))
    finally:
        shutil.rmtree(SCRATCH, ignore_errors=True)
    sys.exit(rc)


if __name__ == '__main__':
    main()
