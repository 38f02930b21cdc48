#!/usr/bin/env python3
"""Decides one property of /repo:  check.py PROP   (VERIF_TIER, VERIF_SEED from the environment)

1. vx extracts the functions of /repo named in vlib/props.py, and everything their contracts mention;
2. they are woven with the contracts in contracts/ into one Verus file; Verus must discharge every
   obligation (and must fail every reachability probe of the same file: vacuity guard);
3. the oracle runs the real crates on enumerated and seeded inputs: it is what turns a failed
   obligation into a concrete failing input.
"""
import json, os, sys, time, threading, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import vc, run, weave, props, oracle

ROOT = vc.ROOT


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    t0 = time.time()
    if '--replay' in sys.argv:
        return replay(prop, sys.argv[sys.argv.index('--replay') + 1])
    conf = props.PROPS[prop]
    work = os.path.join(run.BUILD, 'work', prop)
    os.makedirs(work, exist_ok=True)
    res = {}

    budget = Budget(430 if tier == 'quick' else 1200)

    def t_oracle():
        try:
            res['oracle'] = oracle.run(prop, seed, tier, work)
            if res['oracle'].get('available') and res['oracle'].get('failure'):
                # the property is broken: the proof is only waited for to name the obligation that shows it
                budget.cut(20)
        except Exception as e:
            res['oracle'] = dict(available=False, reason='%s: %s' % (type(e).__name__, e))

    th = threading.Thread(target=t_oracle)
    th.start()
    try:
        v = verify(prop, conf, tier, seed, work, budget)
    except Exception as e:
        import traceback
        v = dict(status='undecided', reason='%s: %s' % (type(e).__name__, e), trace=traceback.format_exc())
    th.join()
    o = res['oracle']
    if v['status'] != 'ok' and o.get('available') and not o.get('failure'):
        # look harder for a failing input: the texts on which a changed pattern differs, then more seeds
        wit = [t for r in (v['woven'].regexes if v.get('woven') else []) if r['equivalent'] is False for t in r['witnesses']]
        if wit:
            o2 = oracle.run(prop, seed, tier, work, texts=wit)
            if o2.get('available') and o2.get('failure'):
                o2['texts'] = wit
                res['oracle'] = o2
        if v['status'] == 'fail' and not res['oracle'].get('failure') and tier == 'quick':
            o2 = oracle.run(prop, seed + 1000, 'thorough', work)
            if o2.get('available') and o2.get('failure'):
                o2.update(seed=seed + 1000, tier='thorough')
                res['oracle'] = o2
    return verdict(prop, conf, tier, seed, v, res['oracle'], time.time() - t0)


# ---------------------------------------------------------------------------------------------
class Budget:
    """the time the verifier may take in all"""

    def __init__(self, total=430):
        self.end = time.time() + total
        self.broken = False

    def cut(self, secs):
        self.broken = True
        self.end = min(self.end, time.time() + secs)

    def left(self, cap):
        return max(1, min(cap, self.end - time.time()))

    def over(self):
        return time.time() > self.end


def verify(prop, conf, tier, seed, work, budget):
    contracts = vc.load_all()
    ex = run.extract(contracts, work)
    vs = {m: (x if x == '*' else set(x)) for m, x in conf['verify'].items()}
    mods = list(vs)

    def mk(smoke):
        return weave.Weaver(ex, contracts, prop, vs, mods, smoke=smoke).weave()

    w, ws = mk(False), mk(True)
    out = dict(woven=w)
    for m, fns in vs.items():
        if fns == '*':
            continue
        for f in fns:
            full = '%s::%s' % (m, f)
            if full not in w.verified and ('fn ' + full) not in w.lost:
                w.lost.append('fn ' + full)
    box = {}

    def t_smoke():
        box['smoke'] = run.run_verus(ws, os.path.join(work, 'smoke.rs'), threads=3, multiple=3, timeout=budget.left(400), stop=budget.over)

    th = threading.Thread(target=t_smoke)
    th.start()
    rl = conf.get('rlimit', 30)
    main_path = os.path.join(work, '%s.rs' % prop)
    r = run.run_verus(w, main_path, threads=4, rlimit=rl, timeout=budget.left(400), stop=budget.over)
    runs = [r]
    if r['status'] == 'fail':
        # a failed proof can be solver luck: only obligations that fail under other seeds count
        for s in (11, 23):
            if budget.over() or budget.broken:
                break
            r2 = run.run_verus(w, main_path, threads=4, rlimit=(rl or 10) * 3, seed=s, timeout=budget.left(300), stop=budget.over)
            runs.append(r2)
            if r2['status'] == 'ok':
                r = r2
                break
    elif r['status'] == 'undecided' and 'limit' in r.get('reason', ''):
        r2 = run.run_verus(w, main_path, threads=4, rlimit=(rl or 10) * 5, seed=5, timeout=budget.left(300), stop=budget.over)
        runs.append(r2)
        r = r2
    elif r['status'] == 'ok' and tier == 'thorough':
        for s in (seed + 100, seed + 200, seed + 300):
            r2 = run.run_verus(w, main_path, threads=4, rlimit=(rl or 10) * 2, seed=s, timeout=budget.left(300), stop=budget.over)
            runs.append(r2)
    th.join()
    out['runs'] = runs
    out['verus'] = r
    out['status'] = r['status']
    out['reason'] = r.get('reason')
    if w.lost:
        out['status_note'] = 'lost anchors: ' + ', '.join(w.lost)
    # vacuity
    sm = box['smoke']
    probes = {}
    for i, info in enumerate(ws.info):
        if info and info.get('smoke'):
            probes[i + 1] = (info['fn'], info['smoke'])
    hit, unsure = set(), set()
    for d in sm['diags']:
        if d['kind'] == 'undecided' and 'Resource limit' in d['rendered']:
            # the solver ran out before it could either prove or refute "false" there: not a vacuous proof
            unsure |= {ws.info[s['line'] - 1]['fn'] for s in d['spans'] if 0 < s['line'] <= len(ws.info) and (ws.info[s['line'] - 1] or {}).get('fn')}
        if d['kind'] == 'fail':
            for s in d['spans']:
                if s['line'] in probes:
                    hit.add(s['line'])
    out['probes'] = len(probes)
    out['probes_reached'] = len(hit)
    out['vacuous'] = sorted('%s (%s)' % probes[l] for l in probes if l not in hit and probes[l][0] not in unsure)
    out['inconclusive'] = sorted('%s (%s)' % probes[l] for l in probes if l not in hit and probes[l][0] in unsure)
    out['smoke_status'] = sm['status']
    return out


def failed_obligations(v):
    """names of the obligations that failed, and whether the failure is one the contract's shape supports"""
    w = v['woven']
    obs = []
    for d in v['verus']['diags']:
        if d['kind'] != 'fail':
            continue
        fn, clause, src = None, None, None
        for s in d['spans']:
            i = s['info'] or {}
            if i.get('kind') == 'fn' or i.get('fn'):
                if fn is None or s['primary'] and not i.get('clause'):
                    fn = i.get('fn')
                if i.get('clause'):
                    clause = '%s of %s: %s' % (i['clause'], i['fn'], i.get('ctext', ''))
                if i.get('src'):
                    src = '%s:%s' % (i.get('file'), i.get('src'))
        # the function whose body was being checked: the span without a clause, or the only one
        for s in d['spans']:
            i = s['info'] or {}
            if i.get('fn') and not i.get('clause'):
                fn = i['fn']
        if fn is None:
            for s in d['spans']:
                i = s['info'] or {}
                fn = fn or i.get('fn') or i.get('module')
        obs.append(dict(message=d['message'], function=fn, clause=clause, source=src,
                        is_proof_hint=any((s['info'] or {}).get('proof') for s in d['spans'] if s['primary']),
                        rendered=d['rendered']))
    return obs


def verdict(prop, conf, tier, seed, v, o, wall):
    ev_dir = os.path.join(ROOT, 'evidence')
    os.makedirs(ev_dir, exist_ok=True)
    rp_dir = os.path.join(run.BUILD, 'replay')
    os.makedirs(rp_dir, exist_ok=True)
    rp = os.path.join(rp_dir, '%s.json' % prop)
    w = v.get('woven')
    cov = {}
    assumptions = []
    lines = []
    exit_code = 0
    level = 'proof'
    proof_ok = v['status'] == 'ok' and w is not None and not w.lost and v['verus']['verified'] > 0 and not v.get('vacuous') \
        and not w.problems and not w.uncontracted
    fail = o.get('failure') if o.get('available') else None
    if w is not None:
        r = v['verus']
        cov.update(
            obligations=r['verified'] + r['errors'], discharged=r['verified'], back_end='Verus (Z3)',
            checker_cmd=r['cmd'], solver_ms=sum(x.get('smt_ms', 0) for x in v['runs']),
            verus_runs=len(v['runs']),
            functions_under_contract=sorted(w.verified), functions_verified=len(w.verified),
            contracts_assumed=sorted(w.assumed), trusted_functions=sorted(w.trusted_fns),
            uncontracted_helpers=w.uncontracted, lost_anchors=w.lost, unsupported=w.problems,
            extraction_notes={k: n for k, n in w.notes.items() if n},
            reachability_probes=v['probes'], reachability_probes_reached=v['probes_reached'],
            vacuous=v['vacuous'], reachability_inconclusive=v['inconclusive'], trusted_base=weave.trusted_base(w),
            loop_mismatch=w.loop_mismatch,
            patterns_certified=[dict(pattern=x['pattern'], equivalent_to_grammar=x['equivalent'], groups=x['groups']) for x in w.regexes],
        )
        assumptions += weave.assumption_list(w)
    else:
        cov.update(obligations=0, discharged=0, checker_cmd='', trusted_base=[])
    if o.get('available'):
        cov.update(evaluations=o['evaluations'], distinct_nontrivial=o['distinct_nontrivial'], rule=o['rule'], samples=o['samples'])
    else:
        cov['oracle'] = 'unavailable: ' + str(o.get('reason'))
    violations = 0
    if fail:
        violations = 1
        rep = dict(property=prop, kind='failing input', input=fail['input'], observed=fail['what'], case=fail['case'], seed=o.get('seed', seed), tier=o.get('tier', tier), texts=o.get('texts'),
                   replay_cmd='python3 %s/check.py %s --replay %s' % (ROOT, prop, rp))
        if v['status'] == 'fail':
            rep['failed_obligations'] = failed_obligations(v)
        json.dump(rep, open(rp, 'w'), indent=1)
        lines.append('input: %s' % fail['input'][:500])
        lines.append('observed: %s' % fail['what'][:500])
        lines.append('VIOLATION property=%s replay=%s' % (prop, rp))
        exit_code = 1
    elif proof_ok:
        pass
    elif v['status'] == 'fail':
        obs = failed_obligations(v)
        bad = []
        for ob in obs:
            fn = ob['function']
            if fn is None:
                continue
            if any(x.startswith(fn + ':') for x in w.loop_mismatch + w.problems):
                continue
            bad.append(ob)
        if bad and not w.lost and not w.uncontracted:
            violations = len(bad)
            json.dump(dict(property=prop, kind='failed obligation', failed_obligations=bad, woven_file=os.path.join(run.BUILD, 'work', prop, prop + '.rs'),
                           verifier_cmd=v['verus']['cmd'], seed=seed, tier=tier,
                           oracle={k: o.get(k) for k in ('available', 'evaluations', 'reason')}), open(rp, 'w'), indent=1)
            for ob in bad[:5]:
                lines.append('failed obligation: %s in %s%s%s' % (ob['message'], ob['function'],
                             ' [%s]' % ob['clause'] if ob['clause'] else '', ' at %s' % ob['source'] if ob['source'] else ''))
            lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rp))
            exit_code = 1
        else:
            level = 'exploration'
    else:
        level = 'exploration'
    if exit_code == 0 and not proof_ok:
        why = v.get('status_note') or v.get('reason') or ''
        if w is not None:
            why += ' '.join(w.lost + w.problems + w.uncontracted + w.loop_mismatch + ['vacuous: ' + x for x in v['vacuous']])
        cov['bounded_stand_in'] = ('the contracts no longer fit the source, so nothing is proved on this run; '
                                   'the enumerated and seeded inputs of the oracle are all that was explored: ' + why)
        lines.append('NOTE: no proof on this tree (%s); bounded exploration only' % why[:600])
        if not o.get('available'):
            lines.append('NOTE: the oracle is unavailable too: %s' % o.get('reason'))
    for k in known(prop):
        lines.append('KNOWN-FINDING: property=%s %s' % (prop, k))
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=assumptions,
              wall_s=round(wall, 2), violations=violations)
    json.dump(ev, open(os.path.join(ev_dir, '%s.json' % prop), 'w'), indent=1)
    if proof_ok and not fail:
        lines.append('%s: proved: %d obligations discharged over %d functions; oracle: %s cases' %
                     (prop, cov['discharged'], len(w.verified), cov.get('evaluations', 0)))
    print('\n'.join(lines))
    return exit_code


def known(prop):
    p = os.path.join(ROOT, 'known_findings.txt')
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\w+) (.*)$', l.strip())
            if m and m.group(1) == prop:
                out.append(m.group(2))
    return out


def replay(prop, path):
    rep = json.load(open(path))
    if rep['kind'] == 'failing input':
        work = os.path.join(run.BUILD, 'work', prop)
        o = oracle.run(prop, rep['seed'], rep['tier'], work, only=rep['case'], texts=rep.get('texts'))
        print(json.dumps(o.get('failure'), indent=1))
        return 1 if o.get('failure') else 0
    print(json.dumps(rep['failed_obligations'], indent=1))
    return 0


if __name__ == '__main__':
    sys.exit(main())
