#!/usr/bin/env python3
"""Checks of the decoding properties: generate the definitions, compile them with the
derive of /repo, explore.  usage: run.py ID [--replay FILE]"""
import json, os, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
EVID = os.environ.get('MC_EVIDENCE', '/verif/evidence')
TARGET = os.environ.setdefault('CARGO_TARGET_DIR', '/verif/target')
os.environ['CARGO_NET_OFFLINE'] = 'true'

def evidence(id, cov, wall, violations):
    tier = 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    os.makedirs(EVID, exist_ok=True)
    json.dump({'property': id, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '0') or 0), 'level': 'model_checking',
               'coverage': cov, 'wall_s': round(wall, 2), 'violations': violations}, open('%s/%s.json' % (EVID, id), 'w'), indent=1)

def cargo(*args, cwd=HERE, **kw):
    return subprocess.run(['cargo', *args], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)

def main():
    id = sys.argv[1]
    t0 = time.time()
    defs = None
    if id == 'C28':
        # first which definitions compile, then what the accepted ones decode
        sys.path.insert(0, HERE)
        sys.dont_write_bytecode = True
        import c28
        replay = sys.argv[2:3] == ['--replay']
        if not replay or 'input (JSON string)' not in open(sys.argv[3]).read():
            rc = c28.main(sys.argv[2:])
            if rc or replay: sys.exit(rc)
            defs = json.load(open(EVID + '/C28.json'))['coverage']
    subprocess.run([sys.executable, os.path.join(HERE, 'gen.py'), id], check=True, stdout=subprocess.DEVNULL)
    # the library, and with it knuffel, has to build: otherwise nothing can be said
    r = cargo('build', '--offline', '--release', '--lib')
    if r.returncode:
        sys.stderr.write(r.stderr)
        sys.exit(2)
    r = cargo('build', '--offline', '--release', '--bin', id.lower())
    if r.returncode:
        errors = [l for l in r.stderr.splitlines() if l.startswith('error')]
        if r.returncode < 0 or not any('could not compile' in l for l in errors) or 'signal: 9' in r.stderr:
            sys.stderr.write(r.stderr)
            sys.exit(2)
        # documented definitions no longer compile
        path = '%s/%s.replay.txt' % (EVID, id)
        os.makedirs(EVID, exist_ok=True)
        src = open(os.path.join(HERE, 'src', 'bin', id.lower() + '.rs')).read().splitlines()
        defs = []
        for l in r.stderr.splitlines():
            l = l.strip()
            if l.startswith('--> src/bin/'):
                n = int(l.rsplit(':', 2)[1])
                defs.append('\n'.join(src[n - 1:n + 2]))
        with open(path, 'w') as f:
            f.write('property: %s\nproblem: definitions of the documented forms are no longer accepted by the derive\n\nfirst of %d:\n%s\n\ncompiler output:\n%s\nreplay: /verif/run.sh %s --replay %s\n'
                    % (id, len(defs), defs[0] if defs else '?', r.stderr[:20000], id, path))
        evidence(id, {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': defs[:3],
                      'rule': 'the definitions of the grid did not compile'}, time.time() - t0, 1)
        print(''.join(l + '\n' for l in errors[:8]))
        print('VIOLATION property=%s replay=%s' % (id, path))
        sys.exit(1)
    args = sys.argv[2:]
    if args[:1] == ['--replay'] and 'input (JSON string)' not in open(args[1]).read():
        print('the definitions compile')
        sys.exit(0)
    import resource
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    exe = os.path.join(TARGET, 'release', id.lower())
    if defs is None: os.execv(exe, [exe] + args)
    rc = subprocess.run([exe] + args).returncode
    try:
        e = json.load(open(EVID + '/C28.json'))
        for k in ('states', 'transitions', 'traces_validated_against_impl'): e['coverage'][k] += defs[k]
        for k in ('accepted_definitions', 'rejected_definitions'): e['coverage'][k] = defs[k]
        e['coverage']['rule'] = defs['rule'] + '; then ' + e['coverage']['rule']
        e['coverage']['samples'] += defs['samples']
        e['wall_s'] = round(time.time() - t0, 2)
        json.dump(e, open(EVID + '/C28.json', 'w'), indent=1)
    except OSError: pass
    sys.exit(rc if rc >= 0 else 3)

main()
