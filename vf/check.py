#!/usr/bin/env python3
"""check.py PROPERTY : decide one property by discharging every obligation of its units on /repo's current sources."""
import copy, sys, os, json, time, shutil, tempfile, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'units'))
import runner
from runner import *
from concurrent.futures import ThreadPoolExecutor
import registry
import distcmp

GENERIC = {'CALLPRE', 'LOOP', 'FRAME', 'SAFETY', 'UNWIND'}


def relevant(tag, prop):
    return tag in GENERIC or prop in tag.split('_')


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    only = None
    for i, a in enumerate(sys.argv):
        if a == '--tier':
            tier = sys.argv[i + 1]
        if a == '--unit':
            only = sys.argv[i + 1]
    verbose = '-v' in sys.argv
    t0 = time.time()
    units = [u for u in registry.UNITS if prop in u.props and (tier == 'thorough' or u.tier == 'quick')]
    if only:
        units = [u for u in units if re.search(only, u.name)]
    if not units:
        print('no units for', prop); return 2
    work = tempfile.mkdtemp(prefix='vf_%s_' % prop)
    replays = os.path.join(VERIF, 'evidence', 'replays', prop)
    shutil.rmtree(replays, ignore_errors=True)
    os.makedirs(replays, exist_ok=True)
    rc = 2
    try:
        rc = decide(prop, tier, seed, units, work, replays, t0, verbose)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return rc


def decide(prop, tier, seed, units, work, replays, t0, verbose):
    diff = distcmp.compare(REPO)      # modules whose Distribution text differs from src
    jobs = []
    for u in units:
        jobs.append((u, 'src'))
        if u.dist and set(u.mods) & set(diff):
            jobs.append((u, 'dist'))
    results = []
    nw = int(os.environ.get('VF_JOBS', '8'))
    with ThreadPoolExecutor(nw) as ex:
        futs = []
        for i, (u, v) in enumerate(sorted(jobs, key=lambda j: -j[0].timeout)):
            futs.append(ex.submit(run_unit, u, v, os.path.join(work, '%s_%s' % (u.name, v)), tier))
        for f in futs:
            results.append(f.result())
    known = []
    kf = os.path.join(VERIF, 'known_findings.json')
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf)) if k.get('property') == prop and k.get('status') == 'known']
    violations = []; errors = []; knownhits = []
    nob = ndis = bob = bdis = 0   # bounded units are counted apart, never as proved
    by_unit = []
    for r in results:
        u = r.unit
        rel = [o for o in r.obligations if relevant(o[1], prop)]
        isb = not r.loops_applied and bool(u.bounded or u.loops); nd = sum(1 for o in rel if o[3] == 'SUCCESS')
        if isb:
            bob += len(rel); bdis += nd
        else:
            nob += len(rel); ndis += nd
        by_unit.append({'unit': u.name, 'function': u.func, 'variant': r.variant, 'config': u.cfg, 'status': r.status,
                        'obligations': len(rel), 'discharged': sum(1 for o in rel if o[3] == 'SUCCESS'),
                        'contract_clauses': [o[2] for o in rel if o[1] not in GENERIC],
                        'backend': r.backend, 'solver_s': round(r.solver_s, 2), 'wall_s': round(r.wall, 2),
                        'loops': ('loop contracts (unbounded)' if r.loops_applied else
                                  ('unwound to %d%s' % (u.unwind, ', BOUNDED: ' + u.bounded if u.bounded or u.loops else ', complete (unwinding assertions discharged)'))),
                        'callees_replaced_by_contract': r.replaced,
                        'vacuity_goals_reached': sum(1 for c in r.covers if c[1]), 'vacuity_goals': len(r.covers), 'note': r.note})
        if verbose:
            print('%-34s %-4s %-9s ob=%d wall=%.1fs %s' % (u.name, r.variant, r.status, len(rel), r.wall, r.note[:300]))
        if r.status in ('error', 'undecided'):
            errors.append((r, r.note)); continue
        bad = [f for f in r.failed if relevant(f[1], prop)]
        if [f for f in r.failed if f[1] in ('CAPACITY', 'UNDEF', '?')]:
            errors.append((r, 'harness limit: %s' % [f[2] for f in r.failed if f[1] in ('CAPACITY', 'UNDEF', '?')][:3]))
        if bad:
            if verbose:
                for f in bad[:12]:
                    print('     FAILED', f)
            kn = [k for k in known if k['unit'] == u.name and all(f[2] in k['obligations'] for f in bad)]
            if kn:
                knownhits.append(kn[0]); continue
            violations.append((r, bad))
    lines = []
    unconfirmed_unwind = []
    seen = set(); any_confirmed = False
    violations.sort(key=lambda v: v[0].solver_s)
    for r, bad in violations:
        u = r.unit
        wd = os.path.join(work, '%s_%s' % (u.name, r.variant))
        confirmed = False; text = ''
        order = sorted(bad, key=lambda f: (f[1] in GENERIC, f[1] in ('LOOP', 'FRAME', 'UNWIND')))
        if not any_confirmed and time.time() - t0 < 700:
            tried = 0
            use = order; dirs = [(wd, u, r)]
            if r.loops_applied:
                # the abstract loop state is no input: look for one by unwinding the same unit
                w2 = wd + '_nl'; os.makedirs(w2, exist_ok=True)
                lg = []
                b, note, repl = build(u, r.variant, w2, False, lg)
                if b:
                    r2 = Result(u, r.variant)
                    ens, cov, _ = ens_names(u, r.variant, w2)
                    u2 = copy.copy(u); u2.unwindset = u.unwindset + u.nlset; u2.timeout = min(u.timeout, 200); u = u2
                    solve(u, b, u.unwind, r2, ens, cov, lg, w2)
                    bad2 = [f for f in r2.failed if relevant(f[1], prop) and f[1] not in ('UNWIND',)]
                    order2 = sorted(bad2, key=lambda f: (f[1] in GENERIC, f[1] in ('LOOP', 'FRAME')))
                    dirs = [(w2, u, r2)]; use = order2
            w = dirs[0][0]; left = 780 - (time.time() - t0)
            cex = counterexamples(u, dirs[0][2], w, dirs[0][2].unw, left) if use and left > 20 else {}
            for f in use[:8]:
                vals = cex.get(f[0])
                if vals is None:
                    continue
                ok, out = replay(u, r.variant, vals, w, f[1])
                text += '\n--- obligation %s [%s] %s\n--- inputs (verifier counterexample)\n' % (f[0], f[1], f[2])
                text += '\n'.join('%s = 0x%x' % kv for kv in sorted(vals.items()) if kv[1])
                text += '\n--- native replay on the gcc-compiled real code: %s\n%s\n' % ('CONFIRMED' if ok else 'not confirmed', out[-3000:])
                if ok:
                    confirmed = any_confirmed = True
                    ic = os.path.join(w, 'inputs.c')
                    shutil.copy(ic, os.path.join(replays, '%s_%s_inputs.c' % (u.name, r.variant)))
                    break
        only_unw = all(f[1] == 'UNWIND' for f in bad)
        if only_unw and not confirmed:
            errors.append((r, 'loop bound exceeded and no failing input found: undecided')); continue
        path = os.path.join(replays, '%s_%s.txt' % (u.name, r.variant))
        with open(path, 'w') as fo:
            fo.write('property %s\nunit %s (%s) variant %s\nfunction under contract: %s\nconfirmed natively: %s\n' % (prop, u.name, u.file, r.variant, u.func, confirmed))
            fo.write('failed obligations:\n' + '\n'.join('  %s [%s] %s: %s' % f for f in bad) + '\n')
            if confirmed:
                fo.write('to replay: gcc -w -g -DNATIVE -DVF_INPUTS_C=\'"%s"\' %s %s/units/%s %s -lm && ./a.out\n' % (
                    os.path.join(replays, '%s_%s_inputs.c' % (u.name, r.variant)),
                    ' '.join(base_flags(r.variant) + ['-D' + d for d in u.defs]), VERIF, u.file, ' '.join(sources(u, r.variant))))
            fo.write(text)
            fo.write('\n=== verifier output\n' + r.log[-15000:])
        seen.add(u.name)
        lines.append((0 if confirmed else 1, 'VIOLATION property=%s replay=%s%s' % (prop, path, '' if confirmed else ' no-failing-input-found'),
                      'failed obligation: unit %s: %s' % (u.name, bad[0][2])))
    lines.sort()
    # evidence
    trusted = registry.TRUSTED_COMMON + sorted({t for u in units for t in registry.TRUSTED.get(u.name, registry.TRUSTED.get(u.file, []))})
    trusted += ['contract of %s assumed at its call sites; no unit proves its body' % f for f in sorted({f for r in results for f in r.unit.replace} - {u.func for u in registry.UNITS})]
    cov = {
        'obligations': nob, 'discharged': ndis,
        'checker_cmd': 'goto-cc | goto-instrument --dfcc harness --enforce-contract F [--replace-call-with-contract G] [--apply-loop-contracts] | cbmc --sat-solver cadical (see /verif/vf/runner.py)',
        'trusted_base': trusted,
        'functions_under_contract': sorted({r.unit.func for r in results}),
        'units': by_unit,
        'bounded_obligations': bob, 'bounded_obligations_without_counterexample': bdis,
        'bounded_units': sorted({b['unit'] for b in by_unit if 'BOUNDED' in b['loops']}),
        'solver_s': round(sum(r.solver_s for r in results), 2),
        'distribution_copy': ('token-identical to src for all modules: the proofs transfer' if not diff else 'differs in %s: units of these modules were also run against lib/Distribution' % sorted(diff)),
        'vacuity': {'goals': sum(len(r.covers) for r in results), 'reached': sum(1 for r in results for c in r.covers if c[1])},
        'known_findings': [k['what'] for k in knownhits],
        'undecided': [{'unit': r.unit.name, 'variant': r.variant, 'why': n[:500]} for r, n in errors],
        'violations': [l[1] for l in lines],
    }
    level = registry.LEVEL.get(prop, 'proof')
    if level == 'other':
        cov['explanation'] = 'The deciding functions are only covered by bounded checks (bounded_units: %s), counted in bounded_obligations; obligations/discharged count the proved functions alone.' % ', '.join(cov['bounded_units'])
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'wall_s': round(time.time() - t0, 2)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for k in knownhits:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    if lines:
        for _, l, why in lines:
            print(why)
        for _, l, why in lines:
            if lines[0][0] == 0 and _ == 1:
                print('also not proved: ' + l.split(' ', 1)[1])   # a confirmed violation is reported: the rest is supporting detail
            else:
                print(l)
        return 1
    if errors:
        for r, n in errors:
            print('UNDECIDED property=%s unit=%s variant=%s: %s' % (prop, r.unit.name, r.variant, n[:1500]))
        return 2
    print('OK property=%s: %d obligations in %d units discharged in %.1fs' % (prop, nob + bob, len(results), time.time() - t0))
    return 0


if __name__ == '__main__':
    sys.exit(main())
