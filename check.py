#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough] [--root /repo] [-v]

Decides one property from /repo's current source; see DESIGN.md."""
import importlib
import json
import os
import re
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def known():
    p = os.path.join(HERE, 'known-findings.txt')
    out = []
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', ln)
            if m:
                out.append(m.groups())
    return out


SHAPES = ['3,2,2', '4,1,3', '2,2,1']


def second_look(prop, root, rep, spec, tier):
    """obligations the symbolic-size analysis leaves open are analysed again for all data of
    a few fixed problem sizes, where loops unroll."""
    done = []
    if not spec.shapes:
        return done
    for sh in SHAPES if tier == 'thorough' else SHAPES[:2]:
        openobs = [o for o in rep.obs if o[1] == 'undecided']
        if not openobs or any(o[1] == 'bad' for o in rep.obs):
            break
        fd, out = tempfile.mkstemp(suffix='.json')
        os.close(fd)
        try:
            subprocess.run([sys.executable, os.path.join(HERE, 'check.py'), prop, '--root', root,
                            '--obs', out], env=dict(os.environ, SA_SHAPE=sh), timeout=120,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            obs = json.load(open(out))
        except (subprocess.TimeoutExpired, ValueError):
            done.append({'sizes': sh, 'result': 'not finished'})
            continue
        finally:
            os.remove(out)
        okn = {o[0] for o in rep.obs if o[1] == 'ok'}
        res = {'sizes': sh, 'held': [], 'violated': []}
        names = {o[0] for o in openobs}
        for o in obs:
            if o[1] == 'bad' and o[0] not in okn:
                rep.obs = [x for x in rep.obs if x[0] != o[0]]
                rep.bad(o[0], o[2], 'for problem size N,m,n=%s: %s' % (sh, o[3]))
                res['violated'].append(o[0])
            elif o[1] == 'ok' and o[0] in names:
                res['held'].append(o[0])
        done.append(res)
    return done


def main():
    t0 = time.time()
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    root = '/repo'
    verbose = '-v' in sys.argv
    av = sys.argv[2:]
    for i, a in enumerate(av):
        if a == '--tier':
            tier = av[i + 1]
        if a == '--root':
            root = av[i + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    from sa.pyfront import Program
    from sa.report import Rep, Timeout
    from sa import rules

    def onalarm(*_):
        raise Timeout()
    signal.signal(signal.SIGALRM, onalarm)
    prog = Program(root)
    rep = Rep(prop, prog)
    for path, err in prog.errors:
        rep.bad('parse', os.path.relpath(path, root), 'does not parse: ' + err)
    spec = rules.get(prop)
    import props
    info = [p for p in props.PROPS if p['id'] == prop][0]
    nd = 0
    for name, fn in spec.rules:
        signal.alarm(spec.timeout)
        try:
            rep.guard(name, fn, rep)
        except Timeout:
            rep.und(name, name, 'analysis time exhausted')
        finally:
            signal.alarm(0)
    if '--obs' in av:
        with open(av[av.index('--obs') + 1], 'w') as f:
            json.dump(rep.obs, f)
        return 0
    shapes = second_look(prop, root, rep, spec, tier)
    bad = [o for o in rep.obs if o[1] == 'bad']
    und = [o for o in rep.obs if o[1] == 'undecided']
    ok = [o for o in rep.obs if o[1] == 'ok']
    kf = [k for k in known() if k[0] == prop]
    viol = []
    for o in bad:
        hit = [k for k in kf if k[1] == o[0]]
        if hit:
            print('KNOWN-FINDING: property=%s %s' % (prop, hit[0][2]))
        else:
            viol.append(o)
    for o in und:
        print('UNDECIDED %s %s: %s' % (o[0], o[2], o[3][:600]))
    if verbose:
        for o in ok:
            print('ok        %s %s' % (o[0], o[2]))
        for n in rep.notes:
            print('note', n)
    ev = os.path.join(HERE, 'evidence')
    os.makedirs(ev, exist_ok=True)
    rp = os.path.join(ev, prop + '.violations.txt')
    if viol:
        with open(rp, 'w') as f:
            for o in viol:
                f.write('%s\n  where: %s\n  rule: %s\n  %s\n\n' % (prop, o[2], o[0], o[3]))
    elif os.path.exists(rp):
        os.remove(rp)
    data = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': spec.level,
        'coverage': {
            'explanation': info['explain'],
            'obligations': len(rep.obs), 'discharged': len(ok),
            'undecided': [o[0] for o in und],
            'fixed_shape_runs': shapes,
            'rules': [n for n, _ in spec.rules],
            'obligation_names': [o[0] for o in rep.obs],
            'functions_analysed': sorted(rep.visited),
            'effect_sites_compared': rep.sites,
            'engine_notes': sorted(set('%s %s %s' % n for n in rep.notes))[:40],
            'checker_cmd': 'python3 /verif/check.py %s' % prop,
            'trusted_base': 'sa/ engine (value-graph lowering and term normal forms), the '
                            'reference specifications in sa/spec and sa/rules, and the '
                            'library summaries in sa/lib.py',
        },
        'assumptions': info['assume'],
        'violations': len(viol),
        'wall_s': round(time.time() - t0, 3),
    }
    with open(os.path.join(ev, prop + '.json'), 'w') as f:
        json.dump(data, f, indent=1)
    print('%s: %d obligations, %d discharged, %d undecided, %d violated (%.1fs)' % (
        prop, len(rep.obs), len(ok), len(und), len(viol), time.time() - t0))
    if viol:
        for o in viol:
            print('  %s [%s] %s' % (o[2], o[0], o[3][:1500]))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main())
