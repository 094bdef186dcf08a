#!/usr/bin/env python3
"""Decide one property of /repo statically.

    python3 check.py Cxx [--thorough]

Builds the repository's current tree with the MIR driver, interprets it abstractly and compares.  Exit 0 when every
obligation is met, 1 with a VIOLATION line otherwise.  Whatever cannot be analysed counts as not met."""
import importlib
import json
import os
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'analyzer'))
import catalog

LIMIT = {'quick': 700, 'thorough': 3400}


def known(pid):
    """Violations recorded as findings: (obligation name, text)."""
    out = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: property=%s ' % pid):
                name, _, text = l.split(' ', 2)[2].partition(' | ')
                out.append((name, text))
    return out


def work(p, tier, seed, path):
    """Run the check (in a process of its own) and write what it found to path."""
    import build
    import rep
    t = time.time()
    r = dict(obs=[], error=None)
    chk = None
    try:
        d = build.dump()
        r['build_s'] = round(time.time() - t, 1)
        chk = rep.Check(d, tier, seed)
        chk.known = {n for n, _ in known(p.id)}
        getattr(importlib.import_module(p.module), p.id)(chk)
    except rep.Enough:
        pass
    except RecursionError:
        r['error'] = 'the analysis of this code does not end (recursion)'
    except MemoryError:
        r['error'] = 'the analysis of this code needs too much memory'
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(sys.exc_info()[2])
        r['error'] = '%s: %s' % (type(e).__name__, str(e)[:2000])
        r['at'] = ['%s:%s %s' % (os.path.basename(f.filename), f.lineno, f.name) for f in tb[-4:]]
    if chk is not None:
        r['prefix'] = chk.prefix
        r['obs'] = [[str(x)[:600] for x in o] if not o[1] else [o[0], True, '', ''] for o in chk.obs]
        for o, q in zip(r['obs'], chk.obs):
            o[1] = q[1]
        for X in chk.ctxs:
            chk.fold(X)
        n = chk.notes
        r['notes'] = {k: sorted(v) if isinstance(v, set) else v for k, v in n.items()}
        r['samples'] = [str(x)[:400] for x in chk.samples]
    with open(path, 'w') as f:
        json.dump(r, f)


def main():
    av = [a for a in sys.argv[1:] if not a.startswith('--')]
    tier = 'thorough' if '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED') or 1)
    p = next(q for q in catalog.PROPS if q.id == av[0])
    if '--worker' in sys.argv:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (14 << 30, 14 << 30))
        sys.setrecursionlimit(60000)
        threading.stack_size(512 << 20)
        th = threading.Thread(target=work, args=(p, tier, seed, av[1]))
        th.start()
        th.join()
        return 0
    t0 = time.time()
    ev = os.path.join(HERE, 'evidence')
    os.makedirs(ev, exist_ok=True)
    path = os.path.join(ev, '.%s.%d.json' % (p.id, os.getpid()))
    cmd = [sys.executable, os.path.abspath(__file__), p.id, path, '--worker'] + (['--thorough'] if tier == 'thorough' else [])
    r, err = None, None
    try:
        w = subprocess.run(cmd, timeout=LIMIT[tier])
        if w.returncode != 0:
            err = 'the analysis died (status %d)' % w.returncode
    except subprocess.TimeoutExpired:
        err = 'the analysis of this code did not end within %d s' % LIMIT[tier]
    if err is None:
        try:
            with open(path) as f:
                r = json.load(f)
            err = r['error']
        except (OSError, ValueError):
            err = 'the analysis left no result'
    if os.path.exists(path):
        os.remove(path)
    r = r or dict(obs=[])
    failed = [o for o in r['obs'] if not o[1]]
    findings = known(p.id)
    new = []
    for o in failed:
        k = next((t for n, t in findings if n == o[0]), None)
        if k is not None:
            print('KNOWN-FINDING: property=%s %s: %s' % (p.id, o[0], k))
        else:
            new.append(o)
    if err is None and not r['obs']:
        err = 'nothing was analysed'
    names = {}
    for o in r['obs']:
        if o[1]:
            names.setdefault(o[0].split(':')[0] if ':' in o[0] else o[0], o[0])
    n = r.get('notes', {})
    cov = dict(explanation='%s Technique: %s. Domain: %s.' % (p.expl, p.technique, p.qtext),
               obligations=len(r['obs']), discharged=len(r['obs']) - len(failed),
               functions_analysed=n.get('fns', []), analysis_contexts=n.get('contexts', 0), calls_interpreted=n.get('calls', 0),
               statements_interpreted=n.get('stmts', 0), graph_nodes=n.get('terms', 0), branch_conditions=n.get('atoms', 0),
               uninterpreted_callees=n.get('opaque', []),
               rule='an obligation is one compared quantity (or one site) for one class of inputs; it is met when the two value '
                    'graphs are equal on every input of the class (or the site is unreachable)',
               samples=r.get('samples', []) + list(names.values())[:12])
    with open(os.path.join(ev, p.id + '.json'), 'w') as f:
        json.dump(dict(property=p.id, tier=tier, seed=seed, level='other', coverage=cov, assumptions=catalog.assumptions(p),
                       wall_s=round(time.time() - t0, 1), violations=len(new) + (1 if err else 0)), f, indent=1)
        f.write('\n')
    if not new and err is None:
        print('%s: %d obligations met (%s), %d functions analysed, %.1f s' % (
            p.id, len(r['obs']) - len(failed), tier, len(n.get('fns', [])), time.time() - t0))
        return 0
    rp = os.path.join(ev, p.id + '.violation.txt')
    with open(rp, 'w') as f:
        f.write('property %s: %s\n%s\n\n' % (p.id, p.title, p.statement))
        if err:
            f.write('NOT ANALYSED: %s%s\n  at %s\n\n' % (r.get('prefix') or '', err, ' < '.join(r.get('at', []))))
        for o in new:
            f.write('BROKEN: %s\n  where: %s\n  %s\n' % (o[0], o[2], o[3]))
        f.write('\nreproduce: cd %s && python3 check.py %s%s\n' % (HERE, p.id, ' --thorough' if tier == 'thorough' else ''))
    if err:
        print('not analysed: %s%s' % (r.get('prefix') or '', err[:600]))
    for o in new[:5]:
        print('broken: %s; %s; %s' % (o[0], o[2][:200], o[3][:400]))
    print('VIOLATION property=%s replay=%s' % (p.id, rp))
    return 1


if __name__ == '__main__':
    sys.exit(main())
