#!/usr/bin/env python3
"""Contract-verification runner: builds each unit from /repo's current sources with goto-cc, enforces the
contract with goto-instrument --dfcc, discharges every obligation with CBMC, checks vacuity goals, and turns
failed obligations into VIOLATION reports (with the verifier's counterexample replayed natively)."""
import os, sys, re, json, time, subprocess, shutil, tempfile, hashlib, signal
from concurrent.futures import ThreadPoolExecutor, as_completed

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
SRC = {
    'embedDB': 'src/embedDB/embedDB.c',
    'spline': 'src/spline/spline.c',
    'schema': 'src/query-interface/schema.c',
    'query': 'src/query-interface/advancedQueries.c',
    'util': 'lib/EmbedDB-Utility/embedDBUtility.c',
    'file': 'lib/Desktop-File-Interface/desktopFileInterface.c',
}
INC = ['src/embedDB', 'src/spline', 'src/query-interface', 'lib/EmbedDB-Utility', 'lib/Desktop-File-Interface']
# sources that the Distribution amalgamation contains
DIST_MODULES = {'embedDB', 'spline', 'schema', 'query', 'util'}


def sh(cmd, timeout=None, cwd=None, mem=None, stdin=None):
    """run, return (rc, out, timed_out)"""
    def pre():
        os.setsid()
        if mem:
            import resource
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=cwd, preexec_fn=pre,
                         stdin=subprocess.DEVNULL)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode('utf-8', 'replace'), False
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        return -9, out.decode('utf-8', 'replace'), True


class Unit:
    def __init__(self, name, file, func, mods, props, unwind=8, unwindset=(), replace=(), defs=(), loops=False,
                 tier='quick', timeout=300, solver=None, extra=(), bounded='', dist=True, cfg='', keepbody=(),
                 noarith=True, hidden=(), nlset=(), inner=4, wrap=()):
        self.wrap = list(wrap)
        self.name = name; self.file = file; self.func = func; self.mods = list(mods); self.props = list(props)
        self.unwind = unwind; self.unwindset = list(unwindset); self.replace = list(replace); self.defs = list(defs)
        self.loops = loops; self.tier = tier; self.timeout = timeout; self.solver = solver; self.extra = list(extra)
        self.bounded = bounded; self.dist = dist; self.cfg = cfg; self.noarith = noarith; self.nlset = list(nlset); self.inner = inner


class Result:
    def __init__(self, unit, variant):
        self.unit = unit; self.variant = variant
        self.status = 'ok'            # ok | failed | undecided | error
        self.obligations = []         # (id, tag, name, status)
        self.failed = []
        self.covers = []              # (name, reached)
        self.note = ''
        self.wall = 0.0
        self.solver_s = 0.0
        self.log = ''
        self.backend = ''
        self.loops_applied = False
        self.replaced = []
        self.unw = unit.unwind


def base_flags(variant):
    fl = []
    if variant == 'dist':
        fl += ['-I', f'{REPO}/lib/Distribution', '-I', f'{VERIF}/vf/distinc']
    else:
        for i in INC:
            fl += ['-I', f'{REPO}/{i}']
    fl += ['-I', f'{VERIF}/vf', '-I', f'{VERIF}/units']
    return fl


def sources(unit, variant):
    if variant == 'dist' and set(unit.mods) & DIST_MODULES:
        s = [f'{REPO}/lib/Distribution/embedDB.c']
        s += [f'{REPO}/{SRC[m]}' for m in unit.mods if m not in DIST_MODULES]
        return s
    return [f'{REPO}/{SRC[m]}' for m in unit.mods]


PROPRE = re.compile(r'^\[(?P<id>[^\]]+)\] (?:file \S+ )?(?:line (?P<line>\d+) )?(?P<desc>.*): (?P<st>SUCCESS|FAILURE|UNKNOWN|ERROR)$')


def ens_names(unit, variant, wd):
    """obligation names, in clause order, from the native build of the same unit file"""
    exe = os.path.join(wd, 'list')
    rc, out, to = sh(['gcc', '-w', '-DNATIVE', '-O0', '-o', exe] + base_flags(variant) + ['-D' + d for d in unit.defs]
                     + [f'{VERIF}/units/{unit.file}'] + sources(unit, variant) + ['-lm'], timeout=120, cwd=wd)
    if rc != 0:
        return None, None, out
    rc, out, to = sh([exe, 'list'], timeout=20, cwd=wd)
    ens = []; cov = []
    for l in out.splitlines():
        if l.startswith('ENS '):
            t, n = l[4:].split(' | ', 1); ens.append((t, n))
        elif l.startswith('COV '):
            cov.append(l[4:])
    return ens, cov, ''


def spec_functions(unit, _cache={}):
    todo = [unit.file]; seen = set(); out = []
    while todo:
        f = todo.pop()
        if f in seen or not os.path.exists(f'{VERIF}/units/{f}'):
            continue
        seen.add(f)
        t = open(f'{VERIF}/units/{f}').read()
        todo += re.findall(r'#include "(\w+\.[ch])"', t)
        out += re.findall(r'^SPEC [\w ]+?[ *](\w+)\(', t, flags=re.M)
    return out


def build(unit, variant, wd, use_loops, log):
    a = os.path.join(wd, 'a.gb'); b = os.path.join(wd, 'b.gb')
    flags = base_flags(variant) + ['-D' + d for d in unit.defs]
    if use_loops:
        flags += ['-DEMBEDDB_VERIFY', '-include', f'{VERIF}/vf/loops.h']
    cmd = ['goto-cc', '-w', '--function', 'harness', '-o', a] + flags + [f'{VERIF}/units/{unit.file}'] + sources(unit, variant)
    rc, out, to = sh(cmd, timeout=120, cwd=wd)
    log.append('$ ' + ' '.join(cmd) + '\n' + out)
    if rc != 0:
        return None, 'goto-cc failed', []
    rc, syms, to = sh(['goto-instrument', '--list-symbols', a], timeout=60, cwd=wd)
    have = set()
    for l in syms.splitlines():
        w = l.split()
        if w:
            have.add(w[0])
    repl = [f for f in unit.replace if f in have]
    # functions called from contract clauses: DFCC leaves their own calls uninstrumented, so inline those first
    for f in spec_functions(unit):
        if f in have:
            rc, out, to = sh(['goto-instrument', '--function-inline', f, a, a], timeout=60, cwd=wd)
            if rc != 0:
                return None, 'goto-instrument inline failed', repl
    if use_loops:
        # loops nested in the loop under contract are unwound first (completely: unwinding assertions are kept)
        marker = set()
        for s in sources(unit, variant):
            for n, l in enumerate(open(s, errors='replace'), 1):
                if 'EMBEDDB_LOOP(%s)' % unit.func in l:
                    marker.add(n)
        rc, out, to = sh(['goto-instrument', '--show-loops', a], timeout=60, cwd=wd)
        us = []
        for m in re.finditer(r'Loop (%s\.\d+):\s+file \S+ line (\d+)' % unit.func, out):
            if int(m.group(2)) not in marker:
                us.append('%s:%d' % (m.group(1), unit.inner))
        if us:
            rc, out, to = sh(['goto-instrument', '--unwinding-assertions', '--unwindset', ','.join(us), a, a], timeout=60, cwd=wd)
            if rc != 0:
                return None, 'goto-instrument unwind failed', repl
    cmd = ['goto-instrument', '--no-malloc-may-fail', '--dfcc', 'harness', '--enforce-contract', unit.func]
    for f in repl:
        cmd += ['--replace-call-with-contract', f]
    if use_loops:
        cmd += ['--apply-loop-contracts']
    cmd += [a, b]
    rc, out, to = sh(cmd, timeout=200, cwd=wd)
    log.append('$ ' + ' '.join(cmd) + '\n' + out[-4000:])
    if rc != 0:
        return None, 'goto-instrument failed: ' + out.strip().splitlines()[-1][:200], repl
    return b, '', repl


def cbmc_cmd(unit, b, unwind, solver):
    cmd = ['cbmc', '--verbosity', '8', '--no-malloc-may-fail', '--unwind', str(unwind), '--unwinding-assertions', '--slice-formula', '--object-bits', '10']
    if unit.noarith:
        cmd += ['--no-signed-overflow-check']
    for u in unit.unwindset:
        cmd += ['--unwindset', u]
    if solver == 'cadical':
        cmd += ['--sat-solver', 'cadical']
    elif solver and solver != 'minisat':
        cmd += ['--' + solver]
    cmd += unit.extra
    return cmd


def run_unit(unit, variant, wd, tier):
    r = Result(unit, variant)
    t0 = time.time()
    log = []
    try:
        os.makedirs(wd, exist_ok=True)
        ens, cov, err = ens_names(unit, variant, wd)
        if ens is None:
            r.status = 'error'; r.note = 'native build of the unit failed: ' + err[-1500:]; return r
        attempts = [True, False] if unit.loops else [False]
        b = None
        for ul in attempts:
            b, note, repl = build(unit, variant, wd, ul, log)
            if b:
                r.loops_applied = ul; r.replaced = repl
                break
        if not b:
            r.status = 'error'; r.note = note; return r
        unw = unit.unwind
        for step in range(2):
            ok = solve(unit, b, unw, r, ens, cov, log, wd)
            # an unwinding assertion that fails means more iterations than expected: retry deeper once
            uw = [f for f in r.failed if f[1] == 'UNWIND']
            if uw and step == 0:
                unw = unw * 3; continue
            break
        r.unw = unw
        return r
    finally:
        r.wall = time.time() - t0
        r.log = '\n'.join(log)


def locals_of(b, wd):
    rc, out, to = sh(['goto-instrument', '--show-symbol-table', b], timeout=60, cwd=wd)
    loc = set(); static = set(); cur = None
    for l in out.splitlines():
        if l.startswith('Symbol......: '):
            p = l[14:].strip().split('::')
            cur = (p[0], p[-1]) if len(p) > 1 else None
        elif l.startswith('Flags.......:') and cur:
            (static if 'static_lifetime' in l else loc).add(cur)
    return loc - static


def solve(unit, b, unw, r, ens, cov, log, wd):
    r.obligations = []; r.failed = []; r.covers = []; r.status = 'ok'; r.note = ''
    solver = unit.solver or 'cadical'
    cmd = cbmc_cmd(unit, b, unw, solver) + [b]
    t0 = time.time()
    rc, out, to = sh(cmd, timeout=unit.timeout, cwd=wd, mem=14 << 30)
    r.solver_s += time.time() - t0
    r.backend = 'CBMC 6.11 / ' + solver
    log.append('$ ' + ' '.join(cmd) + '\n' + out[-20000:])
    if 'not enough arguments' in out:
        r.status = 'error'; r.note = 'uninstrumented call in a contract clause: ' + re.search(r'.*not enough arguments.*', out).group(0); return False
    if to or rc not in (0, 10):
        r.status = 'undecided'; r.note = 'time limit' if to else 'cbmc rc %s: %s' % (rc, out[-300:]); return False
    seen_ens = 0
    locs = locals_of(b, wd) if r.loops_applied else set()
    for l in out.splitlines():
        m = PROPRE.match(l.strip())
        if not m:
            continue
        pid, desc, st = m.group('id'), m.group('desc'), m.group('st')
        if desc.startswith('COVER ') :
            r.covers.append((desc[6:], st == 'FAILURE')); continue
        if desc.startswith('CAPACITY '):
            tag, name = 'CAPACITY', desc
        elif desc.startswith('OB '):
            tag, name = desc[3:].split(' | ', 1)
        elif '.postcondition.' in pid and desc.startswith('Check ensures clause of contract contract::' + unit.func):
            k = int(pid.rsplit('.', 1)[1]) - 1
            tag, name = ens[k] if k < len(ens) else ('?', desc)
            seen_ens += 1
        elif '.precondition.' in pid or 'Check requires clause' in desc:
            tag, name = 'CALLPRE', pid + ' ' + desc
        elif '.unwind.' in pid or 'unwinding assertion' in desc:
            tag, name = 'UNWIND', pid + ' ' + desc
        elif 'loop_invariant' in pid or 'loop_decreases' in pid or 'loop invariant' in desc or 'decreases clause' in desc:
            tag, name = 'LOOP', pid + ' ' + desc
        elif desc.startswith('undefined function'):
            tag, name = 'UNDEF', pid
        elif '.assigns.' in pid or 'assignable' in desc or 'frees' in pid:
            tag, name = 'FRAME', pid + ' ' + desc
        else:
            tag, name = 'SAFETY', pid + ' ' + desc
        if st != 'SUCCESS' and tag == 'FRAME' and locs:
            # DFCC forgets locals of functions called inside a loop under contract: an assignment to a
            # named automatic variable of that function is in its frame by definition
            ml = re.match(r'^Check that (\w+) is assignable$', desc)
            if ml and (pid.split('.')[0], ml.group(1)) in locs:
                st = 'SUCCESS'
        r.obligations.append((pid, tag, name, st))
        if st != 'SUCCESS':
            r.failed.append((pid, tag, name, st))
    if any(f[3] == 'FAILURE' for f in r.failed):
        r.failed = [f for f in r.failed if f[3] == 'FAILURE']     # UNKNOWN: only reachable past a failed obligation
    elif r.failed:
        r.status = 'undecided'; r.note = 'solver left %d obligations undecided: %s' % (len(r.failed), r.failed[0][2]); return False
    if seen_ens < len(ens):
        r.status = 'error'; r.note = 'only %d of %d contract clauses generated an obligation' % (seen_ens, len(ens)); return False
    if r.failed:
        r.status = 'failed'
    missing = [c for c, ok in r.covers if not ok]
    got = {c for c, ok in r.covers}
    if not r.failed and (missing or len(got) < len(set(cov))):
        r.status = 'error'; r.note = 'vacuity: goals not reached: %s' % (missing or (set(cov) - got))
    return True


# ---------------------------------------------------------------- counterexample replay

def conv(v):
    """CBMC json value -> list of (path, intvalue)"""
    out = []
    if 'members' in v:
        for m in v['members']:
            for p, x in conv(m['value']):
                out.append(('.' + m['name'] + p, x))
    elif 'elements' in v:
        for e in v['elements']:
            for p, x in conv(e['value']):
                out.append(('[%d]' % e['index'] + p, x))
    elif 'binary' in v:
        out.append(('', int(v['binary'], 2)))
    elif v.get('name') == 'boolean':
        out.append(('', 1 if v.get('data') in (True, 'true') else 0))
    return out


def text_value(s):
    """value part of a text trace line -> list of (path, int): '5 (0000..)', '{ 1, 2 }', '{ .a=1, .b={ 2 } }'"""
    pos = 0

    def skip():
        nonlocal pos
        while pos < len(s) and s[pos] == ' ':
            pos += 1

    def val():
        nonlocal pos
        skip()
        if s[pos] == '{':
            pos += 1; out = []; i = 0
            while True:
                skip()
                if s[pos] == '}':
                    pos += 1; return out
                if s[pos] == ',':
                    pos += 1; continue
                m = re.compile(r'\.([\w$]+)=').match(s, pos)
                if m:
                    pos = m.end(); pre = '.' + m.group(1)
                else:
                    pre = '[%d]' % i; i += 1
                for p, x in val():
                    out.append((pre + p, x))
        m = re.compile(r"[^,{}() ]+").match(s, pos)
        pos = m.end(); w = m.group(0)
        if w in ('TRUE', 'FALSE'):
            return [('', int(w == 'TRUE'))]
        w = w.rstrip('uUlL')
        try:
            return [('', int(w, 0) & 0xFFFFFFFFFFFFFFFF)]
        except ValueError:
            return []
    try:
        return val()
    except (IndexError, AttributeError):
        return []


def counterexamples(unit, r, wd, unw, left):
    """re-run of the (deterministic) deciding call with traces: {obligation id: {input: value}}"""
    b = os.path.join(wd, 'b.gb')
    cmd = cbmc_cmd(unit, b, unw, unit.solver or 'cadical') + ['--trace', b]
    cmd[cmd.index('--verbosity') + 1] = '4'
    rc, out, to = sh(cmd, timeout=min(unit.timeout, 60 + 2 * r.solver_s, left), cwd=wd, mem=14 << 30)
    res = {}; cur = None; fn = None
    for l in out.splitlines():
        if l.startswith('Trace for '):
            cur = res.setdefault(l[10:].rstrip(':').strip(), {}); continue
        if cur is None:
            continue
        if l.startswith('State '):
            m = re.search(r' function (\S+)', l); fn = m.group(1) if m else None; continue
        if l.startswith('  IN') and l[4:5] in '.[=' and fn in ('harness', 'setup', None):
            lhs, v = l.strip().split('=', 1)
            for p, x in text_value(v):
                key = re.sub(r'\[(\d+)l*\]', r'[\1]', lhs + p)
                if '$' not in key:
                    cur[key] = x
    return res


def replay(unit, variant, vals, wd, tag):
    if unit.wrap and variant == 'dist':
        return None, 'not replayable: callees replaced by contract cannot be intercepted inside the amalgamation'
    ic = os.path.join(wd, 'inputs.c')
    with open(ic, 'w') as f:
        f.write('void vf_load_inputs(void) {\n')
        for k, v in vals.items():
            if v:
                f.write('  %s = 0x%xULL;\n' % (k, v))
        f.write('}\n')
    exe = os.path.join(wd, 'replay')
    cmd = ['gcc', '-w', '-g', '-O0', '-DNATIVE', '-DVF_INPUTS_C="%s"' % ic, '-fsanitize=address,bounds,object-size,null,alignment,integer-divide-by-zero'.replace(',alignment', ''),
           '-fno-sanitize-recover=all', '-o', exe] + base_flags(variant) + ['-D' + d for d in unit.defs] + \
        [f'{VERIF}/units/{unit.file}'] + sources(unit, variant) + ['-lm'] + ['-Wl,--wrap=' + w for w in unit.wrap]
    rc, out, to = sh(cmd, timeout=120, cwd=wd)
    if rc != 0:
        return None, 'replay build failed\n' + out[-1500:]
    env = dict(os.environ)
    rc, out, to = sh(['env', 'ASAN_OPTIONS=detect_leaks=0', exe], timeout=20, cwd=wd)
    if to:
        return True, out + '\n(native run did not terminate within 20 s)'
    if 'CONFIRMED' in out.split() or 'AddressSanitizer' in out or 'runtime error' in out or rc < 0:
        return True, out
    return False, out
