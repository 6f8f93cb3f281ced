#!/usr/bin/env python3
"""run.py ID quick|thorough   decide one property by symbolic execution of the code in /repo
run.py replay FILE          run a recorded counterexample on the real build"""
import fcntl, glob, json, os, re, shutil, subprocess, sys, threading, time

V = os.path.dirname(os.path.abspath(__file__))
B = os.path.join(V, 'build')
T0 = time.time()
TC = '1.90.0'
DEV_RUSTFLAGS = '-A warnings'
IR_RUSTFLAGS = '--emit=llvm-ir -C no-vectorize-loops -C no-vectorize-slp -A warnings'
from checks import CHECKS

class Broken(Exception):
    pass

def log(*a):
    print(*a, file=sys.stderr, flush=True)

def env(flags, target):
    e = dict(os.environ, RUSTUP_TOOLCHAIN=TC, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never')
    e.pop('RUSTFLAGS', None); e.pop('CARGO_ENCODED_RUSTFLAGS', None)
    if flags: e['RUSTFLAGS'] = flags
    return e

class Lock:
    def __init__(self, name):
        os.makedirs(B, exist_ok=True); self.f = open(os.path.join(B, name + '.lock'), 'w')
    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)

def cargo(args, cwd, e, what):
    r = subprocess.run(['cargo'] + args, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: raise Broken(f'{what} does not build:\n' + r.stdout[-4000:])

def build_engine():
    t = os.path.join(B, 't-engine')
    with Lock('engine'):
        cargo(['build', '--release', '--offline', '-q'], os.path.join(V, 'engine'), env('', t), 'engine')
    return os.path.join(t, 'release', 'symex')

def build_ir(feat, priv):
    """LLVM IR of the harness linked with everything it calls, from /repo's working tree."""
    t = os.path.join(B, 't-sym')
    with Lock('sym'):
        for f in glob.glob(os.path.join(t, 'symex/deps/harness-*')) + glob.glob(os.path.join(t, 'symex/deps/libharness-*')): os.remove(f)
        for f in glob.glob(os.path.join(t, 'symex/.fingerprint/harness-*')): shutil.rmtree(f)
        cargo(['rustc', '--offline', '-q', '--lib', '--crate-type', 'staticlib', '--profile', 'symex', '--features', feat], os.path.join(V, 'harness'), env(IR_RUSTFLAGS, t), 'harness (IR)')
        fs = glob.glob(os.path.join(t, 'symex/deps/harness-*.ll'))
        if len(fs) != 1: raise Broken(f'expected one IR file, found {fs}')
        p = os.path.join(priv, 'h.ll'); shutil.move(fs[0], p)
    return p

def build_native(feat, release, priv):
    t = os.path.join(B, 't-rel' if release else 't-dev')
    with Lock('rel' if release else 'dev'):
        cargo(['build', '--offline', '-q', '--bin', 'replay', '--features', 'native,' + feat] + (['--release'] if release else []), os.path.join(V, 'harness'), env(DEV_RUSTFLAGS, t), 'harness (native)')
        p = os.path.join(priv, 'replay-rel' if release else 'replay-dev'); shutil.copy2(os.path.join(t, 'release' if release else 'debug', 'replay'), p)
    return p

def parallel(*fs):
    res = [None] * len(fs); err = []
    def go(i):
        try: res[i] = fs[i]()
        except BaseException as x: err.append(x)
    ts = [threading.Thread(target=go, args=(i,)) for i in range(len(fs))]
    for t in ts: t.start()
    for t in ts: t.join()
    if err: raise err[0]
    return res

def limits():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))

def native(binary, entry, inputs, timeout=30):
    """-> (outcome, obs): ok, panic, 'assert N', hang, crash"""
    try:
        r = subprocess.run([binary, entry, ','.join(map(str, inputs))], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, preexec_fn=limits)
    except subprocess.TimeoutExpired:
        return 'hang', []
    m = re.search(r'outcome=([^\t]*)\tused=(\d+)\tobs=([\d,]*)', r.stdout)
    if not m: return 'crash', []
    return m.group(1), [int(x) for x in m.group(3).split(',') if x]

def batch(binary, items):
    """replay many inputs in one process"""
    if not items: return []
    text = ''.join(f"{e} {','.join(map(str, i))}\n" for e, i in items)
    try:
        r = subprocess.run([binary, '--batch'], input=text, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=120)
    except subprocess.TimeoutExpired:
        return None
    out = []
    for l in r.stdout.splitlines():
        m = re.match(r'outcome=([^\t]*)\tused=(\d+)\tobs=([\d,]*)', l)
        if m: out.append((m.group(1), [int(x) for x in m.group(3).split(',') if x]))
    return out if len(out) == len(items) else None

# what a path of the engine must look like natively for the counterexample to count
def reproduces(kind, what, outcome):
    if kind == 'assert': return outcome.startswith('assert ')
    if kind == 'panic': return outcome in ('panic', 'crash')
    if kind == 'limit': return outcome in ('hang', 'crash')
    if kind in ('fault', 'stack overflow'): return outcome != 'ok'
    return outcome not in ('ok', 'noentry', 'assumption not met', 'inputs exhausted')

def findings_file():
    p = os.path.join(V, 'known_findings.json')
    return json.load(open(p))['findings'] if os.path.exists(p) else []

def check(pid, tier):
    c = CHECKS[pid]
    feat = c['feature']
    conf = c[tier]
    entries = conf['entries']
    budget = conf.get('time', 240 if tier == 'quick' else 1800)
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    priv = os.path.join(B, 'run', f'{pid}-{tier}-{os.getpid()}'); os.makedirs(priv)
    try:
        engine, ll, dev = parallel(build_engine, lambda: build_ir(feat, priv), lambda: build_native(feat, False, priv))
        t_build = time.time() - T0
        out = os.path.join(priv, 'out.json')
        known = [k for k in findings_file() if k['property'] == pid and k.get('state') == 'open']
        es = entries + [k['entry'] for k in known if k['entry'] not in entries]
        r = subprocess.run([engine, '--ll', ll, '--entry', ','.join(es), '--time', str(int(budget)), '--jobs', str(min(8, os.cpu_count() or 8)), '--samples', str(conf.get('samples', 60)), '--max-insts', str(conf.get('max_insts', 200_000_000)), '--max-find', '4', '--z3-timeout', str(conf.get('z3_timeout', 30000)), '--out', out], stderr=subprocess.PIPE, text=True)
        log(r.stderr.rstrip()[-6000:])
        if r.returncode or not os.path.exists(out): raise Broken(f'engine exit {r.returncode}: {r.stderr[-2000:]}')
        res = json.load(open(out))
        R = res['entries']
        # ---- counterexamples: only what the real build confirms is a violation
        viol, unconf, knownhit, limits_seen = [], [], [], []
        rel = None; checked = set()
        for e in R:
            for f in e['findings']:
                if f['kind'] == 'unsupported': continue
                key = (e['entry'], f['kind'], f['what'])
                if sum(1 for v in viol if v[0] == key) >= 1: continue
                o, obs = native(dev, e['entry'], f['inputs'], 60 if f['kind'] == 'limit' else 30)
                prof = 'dev'
                if not reproduces(f['kind'], f['what'], o):
                    if rel is None: rel = build_native(feat, True, priv)
                    o2, obs2 = native(rel, e['entry'], f['inputs'], 60 if f['kind'] == 'limit' else 30)
                    if reproduces(f['kind'], f['what'], o2): o, obs, prof = o2, obs2, 'release'
                    elif f['kind'] == 'limit': limits_seen.append((e['entry'], f)); continue
                    else: unconf.append((e['entry'], f, o)); continue
                k = next((k for k in known if k['entry'] == e['entry'] and (k.get('inputs') is None or k['inputs'] == f['inputs']) and k['outcome'] == o), None)
                if k: knownhit.append(k); continue
                viol.append((key, f, o, obs, prof))
        # ---- paths that hold, run natively as well: outcome and observations must be the same
        items = [(e['entry'], s['inputs']) for e in R for s in e['samples']]
        got = batch(dev, items); agree, unstable, differ = 0, 0, []
        want = [(e['entry'], s) for e in R for s in e['samples']]
        if got is None: got = [native(dev, e, i) for e, i in items]
        for (en, s), (o, ob) in zip(want, got):
            if o == 'ok' and ob == s['obs']: agree += 1
            elif o == 'ok' and any(native(dev, en, s['inputs'])[1] != ob for _ in range(4)): unstable += 1 # depends on the hash seed
            else: differ.append((en, s['inputs'], o, s['obs'][:40], ob[:40]))
        # a path the engine passes and the real build fails is a violation in its own right
        for en, i, o, a, b in differ:
            if o.startswith('assert ') or o in ('panic', 'hang', 'crash'): viol.append(((en, 'native', o), dict(kind='native', what='the real build fails on inputs of a path', inputs=i), o, b, 'dev'))
        # what must be possible: explored to the end without reaching one of the marks
        for e in R:
            for k in c.get('must', {}).get(e['entry'], []):
                if e['exhaustive'] and not e['findings'] and str(k) not in e['reach']:
                    viol.append(((e['entry'], 'unreachable', k), dict(kind='unreachable', what=f'no input within the bounds leads to mark {k} ({c.get("entry_notes", {}).get(e["entry"], "")})', inputs=[]), 'none of the paths explored', [], 'dev'))
        vac = [e['entry'] for e in R if e['exhaustive'] and e['entry'] not in c.get('vacuous_ok', []) and not any(str(k) in e['reach'] for k in c.get('reach', [1])) and not e['findings']]
        tot = lambda k: sum(e[k] for e in R)
        funcs = sorted({f for e in R for f in e['functions']})
        exh = all(e['exhaustive'] for e in R) and not limits_seen
        samples = [dict(entry=e['entry'], inputs=s['inputs'], observed=s['obs'][:24], outcome='assertions hold') for e in R for s in e['samples'][-2:]][:40]
        ev = dict(property=pid, tier=tier, seed=seed, level='model_checking', wall_s=round(time.time() - T0, 2), violations=len(viol),
            coverage=dict(states=tot('paths'), transitions=tot('forks'), traces_validated_against_impl=agree, exhaustive=exh, samples=samples,
                paths_by_outcome={k: sum(e['kinds'].get(k, 0) for e in R) for k in sorted({k for e in R for k in e['kinds']})},
                llvm_instructions=tot('insts'), smt_queries=tot('queries'), smt_cache_hits=tot('cache_hits'), smt_sat=tot('sat'), smt_unsat=tot('unsat'), smt_unknown=tot('unknown'), solver_s=round(sum(e['solver_s'] for e in R), 3), solver='z3 ' + res['z3'],
                assertions_decided=tot('asserts'), assertions_decided_without_query=tot('asserts_by_simplification'), infeasible_paths_pruned=tot('pruned'), build_s=round(t_build, 1),
                functions_encoded=funcs, bounds=c['bounds'], bounds_by_entry={e['entry']: c.get('entry_notes', {}).get(e['entry'], NOTES.get(e['entry'].split('_', 1)[-1], '')) for e in R},
                entries=[dict(entry=e['entry'], paths=e['paths'], exhaustive=e['exhaustive'], incomplete=e['incomplete'], inputs=e['max_inputs'], queries=e['queries'], asserts=e['asserts'], reach=e['reach'], wall_s=e['wall_s']) for e in R]),
            assumptions=ASSUME + c.get('assume', []))
        os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
        with open(os.path.join(V, 'evidence', pid + '.json'), 'w') as fh: json.dump(ev, fh, indent=1); fh.write('\n')
        for k in known:
            # a listed finding is confirmed on the real build on every run
            o, _ = native(dev, k['entry'], k['inputs'])
            if o == k['outcome']: print(f"KNOWN-FINDING: property={pid} {k['what']}")
            else: log(f"known finding no longer fails: {k['what']} ({o})")
        for en, i, o, a, b in differ: log('engine and native run differ:', en, i, o, a, b)
        for en, f, o in unconf: log('counterexample not confirmed:', en, f, 'native:', o)
        print(f"{pid} {tier}: {tot('paths')} paths, {tot('asserts')} assertions, {tot('queries')} queries ({sum(e['solver_s'] for e in R):.1f} s), {agree} paths replayed, {'exhaustive within bounds' if exh else 'not exhaustive: ' + '; '.join(e['entry'] + ': ' + ', '.join(e['incomplete']) for e in R if not e['exhaustive'])}, {time.time() - T0:.0f} s")
        if viol:
            d = os.path.join(B, 'replays'); os.makedirs(d, exist_ok=True)
            for n, (key, f, o, obs, prof) in enumerate(viol[:5]):
                p = os.path.join(d, f'{pid}_{n}.json')
                with open(p, 'w') as fh: json.dump(dict(property=pid, feature=feat, entry=key[0], kind=f['kind'], what=f['what'], inputs=f['inputs'], native_outcome=o, observed=obs[:200], profile=prof, how=f'python3 run.py replay {p}'), fh, indent=1)
                print(f'{key[0]}: {f["kind"]} {f["what"]} -> {o} ({prof}) inputs {f["inputs"]}')
                print(f'VIOLATION property={pid} replay={p}')
            return 1
        if unconf or differ: raise Broken('engine and native run disagree')
        if vac: raise Broken(f'vacuous: {vac}')
        return 0
    finally:
        shutil.rmtree(priv, ignore_errors=True)

ASSUME = [
    'LLVM IR as emitted by rustc 1.90.0 (opt-level 2, overflow checks and debug assertions on, no vectorisation) is what is decided; code generation below IR is trusted',
    'allocation of up to 4 KB never fails; hash seeds are fixed; the engine\'s instruction semantics and z3 are trusted, cross-checked by replaying sampled paths on a native build',
]
NOTES = {}
try:
    from checks import NOTES
except ImportError:
    pass

def main():
    a = sys.argv[1:]
    if len(a) == 2 and a[0] == 'replay':
        j = json.load(open(a[1])); priv = os.path.join(B, 'run', f'replay-{os.getpid()}'); os.makedirs(priv)
        try:
            b = build_native(j['feature'], j['profile'] == 'release', priv)
            o, obs = native(b, j['entry'], j['inputs'], 120); print(o, obs[:200])
            sys.exit(0 if o == 'ok' else 1)
        finally: shutil.rmtree(priv, ignore_errors=True)
    if a == ['setup']:
        priv = os.path.join(B, 'run', f'setup-{os.getpid()}'); os.makedirs(priv)
        try: parallel(build_engine, lambda: build_native('c03', False, priv))
        except Broken as x: print('ERROR', x); sys.exit(1)
        finally: shutil.rmtree(priv, ignore_errors=True)
        sys.exit(0)
    if len(a) != 2 or a[0] not in CHECKS or a[1] not in ('quick', 'thorough'):
        print(__doc__); sys.exit(2)
    try:
        sys.exit(check(*a))
    except Broken as x:
        print('ERROR', x); sys.exit(2)

if __name__ == '__main__':
    main()
