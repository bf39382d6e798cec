#!/usr/bin/env python3
"""Run the static check of one property:  sa/run.py <property> [--thorough]

Exit 0: every obligation discharged on the current /repo sources.  Exit 1: some obligation
fails (VIOLATION line on stdout).  Exit 2: the analysis itself could not be carried out
(an anchor vanished, the sources do not compile, a limit was hit)."""
import json, os, subprocess, sys, time, tempfile, importlib, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build as B
from props import PROPS

ENGINE = os.path.join(VERIF, 'build', 'engine')
TRUSTED = ['clang 18 front end and mem2reg/SROA (C++ -> LLVM IR)',
           'the abstract interpreter in /verif/engine (transfer functions, joins, linear entailment)',
           'the models of the C++ runtime listed under "models"',
           'the analysis is of the x86-64 configuration, NDEBUG, exceptions off (allocation failure not modelled)']


def known(prop):
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known: property=%s ' % prop):
                out.append(line.split(' ', 2)[2].strip())
    return out


def ensure_engine():
    p = subprocess.run(['make', '-s', '-j8', '-C', os.path.join(VERIF, 'engine')], capture_output=True, text=True)
    if p.returncode:
        raise B.AnalysisBroken('engine does not build:\n' + p.stderr[-3000:])


def run_engine(bc, check, thorough, boost=False, limit=800, extra=()):
    fd, out = tempfile.mkstemp(suffix='.json', prefix='verif_out_')
    os.close(fd)
    try:
        cmd = [ENGINE, bc, check, out]
        if thorough:
            cmd.append('--thorough')
        if boost:
            cmd.append('--boost')
        cmd += extra
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=limit)
        try:
            r = json.load(open(out))
        except Exception:
            raise B.AnalysisBroken('engine ended with %d: %s' % (p.returncode, p.stderr[-2000:]))
        r['cmd'] = 'build/engine <linked bitcode of /repo/src> %s <out>' % check
        return r
    except subprocess.TimeoutExpired:
        raise B.AnalysisBroken('engine check %s ran out of time' % check)
    finally:
        os.unlink(out)


def confirm(bc, name, thorough, r, te, notes):
    """What a finer partition shows is not a violation."""
    try:
        items = ['--nostop', '--items', ','.join(map(str, r['failed_items']))] if r['failed_items'] else ['--nostop']
        r2 = run_engine(bc, name, thorough, boost=True, limit=min(200, 40 + 4 * te), extra=items)
    except B.AnalysisBroken as e:
        notes.append('%s: confirmation with a finer partition not completed' % name)
        return
    if r2['broken']:
        return
    st = {o['key']: o['fail'] for o in r2['obligations']}
    for o in r['obligations']:
        if o['fail'] and st.get(o['key']) == 0:
            o['ok'] += o['fail']
            o['fail'] = 0


def analyse(bc, name, thorough, notes):
    fails = lambda r: any(o['fail'] for o in r['obligations'])
    for extra in ([], ['--nostop']):
        te = time.time()
        r = run_engine(bc, name, thorough, extra=extra)
        te = time.time() - te
        if r['broken'] and not fails(r):
            raise B.AnalysisBroken('%s: %s' % (name, r['broken']))
        if r['broken']:
            notes.append('%s: analysis ended early: %s' % (name, r['broken']))
        if not fails(r):
            break
        confirm(bc, name, thorough, r, te, notes)
        if fails(r) or not r['stopped']:
            break
    return r


def main():
    prop = sys.argv[1]
    thorough = '--thorough' in sys.argv
    P = PROPS[prop]
    t0 = time.time()
    obs, functions, models, notes, counts, cmds, unmod = [], set(), set(), [], {}, [], set()
    try:
        bcs = {}

        def bitcode(kind):
            if kind not in bcs:
                bcs[kind] = B.build(kind)
            return bcs[kind]
        for kind, name in P.get('engine', []):
            ensure_engine()
            bc, files = bitcode(kind)
            r = analyse(bc, name, thorough, notes)
            obs += r['obligations']
            functions |= set(r['functions'])
            models |= set(r['models'])
            unmod |= set(r['unmodelled'])
            notes += r['notes']
            cmds.append(r['cmd'])
            for k, v in r['counts'].items():
                counts[k] = counts.get(k, 0) + v
            for k in ('steps', 'joins', 'widens', 'entailments', 'lp_calls'):
                counts['analysis_' + k] = counts.get('analysis_' + k, 0) + r[k]
        for modname in P.get('python', []):
            m = importlib.import_module(modname)
            r = m.check(prop, bitcode, thorough)
            obs += r['obligations']
            functions |= set(r.get('functions', ()))
            notes += r.get('notes', [])
            cmds.append('python3 sa/%s.py' % modname)
            for k, v in r.get('counts', {}).items():
                counts[k] = counts.get(k, 0) + v
        nfiles = sorted({os.path.relpath(f, B.REPO) for k in bcs for f in bcs[k][1]})
        failing = any(o['fail'] for o in obs)
        if not failing and len(obs) < P.get('min_obligations', 1):
            raise B.AnalysisBroken('only %d rule instances (expected at least %d)' % (len(obs), P.get('min_obligations', 1)))
        for k, v in P.get('min_counts', {}).items():
            if not failing and counts.get(k, 0) < v:
                raise B.AnalysisBroken('count %s = %d, expected at least %d' % (k, counts.get(k, 0), v))
    except B.AnalysisBroken as e:
        print('ANALYSIS-BROKEN property=%s: %s' % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-BROKEN property=%s' % prop)
        return 2
    fails = [o for o in obs if o['fail']]
    kn = known(prop)
    real, kfound = [], []
    for o in fails:
        (kfound if any(k == o['key'] for k in kn) else real).append(o)
    und = [o for o in obs if o['undecided'] and not o['fail']]
    wall = time.time() - t0
    ev = {
        'property': prop, 'tier': 'thorough' if thorough else 'quick', 'seed': int(os.environ.get('VERIF_SEED', '1')),
        'level': P['level'], 'wall_s': round(wall, 2), 'violations': len(real),
        'coverage': {
            'explanation': P['explains'],
            'rule': P['rule'],
            'obligations': len(obs),
            'discharged': len([o for o in obs if not o['fail'] and not o['undecided']]),
            'undecided': len(und),
            'obligation_evaluations': sum(o['ok'] + o['fail'] + o['undecided'] for o in obs),
            'checker_cmd': '; '.join(cmds),
            'trusted_base': P.get('trusted', TRUSTED),
            'source_files': nfiles,
            'functions_analysed': sorted(functions),
            'models': sorted(models),
            'unmodelled_calls': sorted(unmod),
            'counts': counts,
            'samples': [{'key': o['key'], 'evaluations': o['ok']} for o in obs[:: max(1, len(obs) // 40)]],
        },
        'assumptions': P.get('assumptions', []) + notes,
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for o in kfound:
        print('KNOWN-FINDING: property=%s %s' % (prop, o['key']))
    for o in und:
        print('NOTE undecided: %s: %s' % (o['key'], o['detail'][:200]))
    print('%s: %d obligations, %d discharged, %d undecided, %d failing; %d functions; %.1f s' % (
        prop, len(obs), ev['coverage']['discharged'], len(und), len(real), len(functions), wall))
    if real:
        os.makedirs(os.path.join(VERIF, 'build', 'replay'), exist_ok=True)
        rp = os.path.join(VERIF, 'build', 'replay', prop + '.txt')
        with open(rp, 'w') as f:
            for o in real:
                f.write('%s\n  detail: %s\n  path: %s\n' % (o['key'], o['detail'], o['chain']))
                print('  FAILED %s\n    %s\n    path: %s' % (o['key'], o['detail'][:400], o['chain'][-400:]))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main())
