"""Runs the contract proofs of one property against /repo's current sources and reports."""
import json
import multiprocessing as mp
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('FV_REPO', '/repo')
sys.path.insert(0, ROOT)

UBSAN = 'signed-integer-overflow,shift,integer-divide-by-zero,float-cast-overflow,unreachable,return,bounds'
PIPE = {
    'light': 'function(sroa<preserve-cfg>,early-cse,simplifycfg)',
    'inline': 'cgscc(inline),function(sroa<modify-cfg>,early-cse<memssa>,simplifycfg,instcombine<no-verify-fixpoint>,simplifycfg)',
    'sroa': 'function(sroa<preserve-cfg>)',
}

TRUSTED = [
    'clang 18 front end and the LLVM passes named in checker_cmd (the verified text is the IR clang emits from the /repo headers on this run)',
    'the VC generator in /verif/fv (memory model: allocations are disjoint and never fail, pointer arithmetic inside one object does not wrap)',
    'semantics given to LLVM intrinsics and the C/C++ runtime functions listed in fv/models.py',
    'the SMT solvers z3 4.8.12, z3-new and cvc5',
    'machine integers are bit-vectors (not mathematical integers); floating point is either uninterpreted or IEEE-754 binary64/32 round-to-nearest',
]


def directives(path, d=None):
    d = {} if d is None else d
    with open(path) as f:
        for line in f:
            m = re.match(r'\s*#include "(\w+\.hpp)"', line)
            if m:
                h = os.path.join(os.path.dirname(path), m.group(1))
                if os.path.exists(h):
                    directives(h, d)
                continue
            m = re.match(r'\s*//FV:\s*(\S+?)(?:@(\S+))?\s*=\s*(.*)$', line)
            if m:
                d.setdefault((m.group(1), m.group(2)), []).append(m.group(3).strip())
    return d


def dget(d, key, proof=None, default=None):
    v = d.get((key, proof)) or d.get((key, None))
    return v[-1] if v else default


def dall(d, key, proof=None):
    return d.get((key, None), []) + (d.get((key, proof), []) if proof else [])


def incs(d):
    out = ['-I' + os.path.join(ROOT, 'fv/include')]
    for s in dall(d, 'shim'):
        out.append('-I' + os.path.join(ROOT, 'shim', s))
    out += ['-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(REPO, 'vendors')]
    for s in dall(d, 'inc'):
        out.append('-I' + s.replace('$REPO', REPO))
    return out


def compile_ir(src, out, d):
    cmd = ['clang++', '-std=c++20', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-strict-aliasing', '-DFV_SYMBOLIC',
           '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-w', '-fno-discard-value-names', '-fno-vectorize', '-ffp-contract=off'] + incs(d) + \
          ['-fsanitize=' + UBSAN, '-fsanitize-trap=all', '-gline-tables-only', '-emit-llvm', '-c', src, '-o', out]
    cmd += dall(d, 'cxx')
    r = subprocess.run(cmd, capture_output=True, text=True)
    return r.returncode == 0, r.stderr, ' '.join(cmd)


def compile_native(src, out, d):
    cmd = ['clang++', '-std=c++20', '-O1', '-w', '-ffp-contract=off', '-D_GLIBCXX_ASSERTIONS'] + incs(d) + \
          ['-fsanitize=' + UBSAN, '-fsanitize-trap=all', src, os.path.join(ROOT, 'fv/native.cpp'), '-o', out] + dall(d, 'cxx') + dall(d, 'lib')
    r = subprocess.run(cmd, capture_output=True, text=True)
    return r.returncode == 0, r.stderr


_M = {}


def load_module(bc, d):
    from fv import llvm
    m = llvm.Module(bc)
    proofs = sorted(n[len('fvproof_'):] for n in m.funcs if n.startswith('fvproof_'))
    # functions whose identity matters must survive as functions
    keep = set(n for n in m.funcs if n.startswith('fvspec_') or n.startswith('fvcontract_') or n.startswith('fvinv_') or n.startswith('fvdec_') or n.startswith('fvproof_'))
    dem = demangle(m)
    rep = {}
    for line in dall(d, 'replace'):
        pat, sym = [x.strip() for x in line.rsplit('->', 1)]
        hit = [n for n, q in dem.items() if re.search(pat, q) and not n.startswith('fv')]
        for n in hit:
            rep[n] = sym
            keep.add(n)
    loops = {}
    for lp, line in [(k[1], x) for k, v in d.items() if k[0] == 'loop' for x in v]:
        # pattern ## ordinal:invariant function (for every proof, or for proof lp only)
        pat, rest = [x.strip() for x in line.split('##', 1)]
        hit = [n for n, q in dem.items() if re.search(pat, q) and m.has_body(n) and not n.startswith('fvinv')]
        for n in hit:
            loops.setdefault(n, []).append((rest, lp))
            keep.add(n)
    if dall(d, 'ctors') or any(k[0] == 'ctors' for k in d):
        keep |= {n for n in m.funcs if n.startswith('__cxx_global_var_init')}
    for n in keep:
        if n in m.funcs and m.has_body(n):
            m.del_fn_attr(n, 'alwaysinline')
            m.add_fn_attr(n, 'noinline')
    m.run_passes(PIPE[dget(d, 'pipe', None, 'light')])
    return m, proofs, rep, loops, dem


def cxxfilt(names):
    tool = shutil.which('llvm-cxxfilt-18') or shutil.which('llvm-cxxfilt') or 'c++filt'
    r = subprocess.run([tool], input='\n'.join(names), capture_output=True, text=True)
    out = r.stdout.replace('[abi:cxx11]', '')
    out = out.replace('operator>>', 'operator\x01')
    while '>>' in out:
        out = out.replace('>>', '> >')
    out = out.replace('operator\x01', 'operator>>')
    return dict(zip(names, out.split('\n')))


def demangle(m):
    names = [n for n in m.funcs if n.startswith('_Z')]
    dem = cxxfilt(names)
    for n in m.funcs:
        dem.setdefault(n, n)
    return dem


def run_proof(job):
    """symbolically execute one proof and discharge its obligations (in a worker process)"""
    bc, d, proof, budget = job
    res = {'proof': proof, 'status': 'error', 'obligations': 0, 'discharged': 0, 'trivial': 0, 'failed': [], 'unknown': [],
           'backends': {}, 'solver_s': 0.0, 'functions': [], 'replaced': [], 'note': '', 'vacuous': [], 'inputs': {}}
    t0 = time.time()
    try:
        from fv import terms as t, smt
        from fv.exec import Executor, State, Unsupported, PathEnd
        key = bc
        if key not in _M:
            _M[key] = load_module(bc, d)
        m, proofs, rep, loops, dem = _M[key]
        loops = {f: [sp for sp, lp in v if lp in (None, proof)] for f, v in loops.items()}
        loops = {f: v for f, v in loops.items() if v}
        opts = {}
        for k in ('max_iter', 'feas_from'):
            v = dget(d, k, proof)
            if v:
                opts[k] = int(v)
        from fv import loops as L
        solvers = tuple((dget(d, 'solvers', proof) or 'z3-new cvc5 z3').split())
        fpm = {'uf': False, 'fp': True, None: None}[dget(d, 'fp', proof)]
        timeout = int(dget(d, 'timeout', proof, '60'))
        variants = L.variants(m, loops, d, proof) if loops else [None]
        last = None
        for vi, variant in enumerate(variants):
            havocs = {}
            for attempt in range(60):
                try:
                    ex, ns, es = execute(m, d, proof, opts, rep, dem, loops, variant, havocs)
                    break
                except L.Restart:
                    continue
                except Unsupported:
                    if vi + 1 < len(variants):
                        ex = None
                        break
                    raise
            else:
                raise Unsupported('loop frame did not stabilise')
            if ex is None:
                continue
            out = discharge(ex, res, proof, ns, solvers, fpm, timeout, t0 + budget, d)
            if last is None or len(out['failed']) + len(out['unknown']) < len(last['failed']) + len(last['unknown']):
                last = out
                lex = ex
            if not out['failed'] and not out['unknown']:
                break
            if time.time() - t0 > budget * 0.6 or not ex.loop_used:
                break
        if last is None:
            raise Unsupported('no loop variant could be executed')
        ex = lex
        if ex.loop_used and last['failed']:
            # the loop annotation may simply not fit a rewritten loop: decided by replay and search, see run()
            res['loopfail'] = True
        if dget(d, 'witness', proof) and last['failed']:
            # the obligation names a witness specific to the current implementation; another implementation may need
            # another one, so only a failing execution refutes the property
            res['loopfail'] = True
        res.update(last)
        res['functions'] = sorted({dem[n] for n in ex.touched})
        res['replaced'] = sorted({dem[n] for n in ex.replaced})
        res['instructions'] = ex.ninstr
        res['loops'] = ex.loop_used
        res['uf'] = sorted(ex.uf_used)
        res['status'] = 'proved' if not res['failed'] and not res['unknown'] else ('failed' if res['failed'] else 'unknown')
        if res['status'] == 'proved' and res['obligations'] == 0:
            res['status'] = 'error'
            res['note'] = 'no obligation generated'
    except Exception as e:
        res['status'] = 'unsupported'
        res['note'] = f'{type(e).__name__}: {e}'
        if os.environ.get('FV_DEBUG'):
            traceback.print_exc()
    res['wall'] = time.time() - t0
    return res


def execute(m, d, proof, opts, rep, dem, loops, variant, havocs):
    from fv import terms as t
    from fv import loops as L
    from fv.exec import Executor, State, PathEnd, Obligation
    ex = Executor(m, opts)
    ex.arrays = []
    ex.replace = dict(rep)
    for x in dall(d, 'noreplace', proof) if (('noreplace', proof) in d) else []:
        for n in [n for n in rep if re.search(x, dem[n])]:
            ex.replace.pop(n, None)
    ex.inputmap = {}
    ex.dem = dem
    ex.variant = variant
    ex.havocs = havocs
    if loops:
        ex.loopspecs = L.install(m, loops, variant)

    uses = {}

    def inp(nm, sort):
        k = uses[nm] = uses.get(nm, 0) + 1
        if k > 1:
            nm = f'{nm}#{k}'
        v = t.var('in!' + nm, sort)
        ex.inputmap[nm] = v
        return v
    ex.input = inp
    st = State()
    if dget(d, 'ctors', proof):
        st = run_ctors(ex, m, st, dget(d, 'ctors', proof))
    try:
        ns, v, es = ex.call_fn('fvproof_' + proof, [], st)
    except PathEnd:
        ns, es = None, None
    if es is not None:
        ex.oblig.append(Obligation('no-escaping-exception', 'safety', es.pc, t.FALSE, proof, 0))
    return ex, ns, es


def run_ctors(ex, m, st, pat):
    """run the dynamic initialisers (in order) whose name matches"""
    g = m.globals.get('llvm.global_ctors')
    if not g:
        return st
    from fv import llvm
    c = m.const(llvm.GetInitializer(g))
    names = [e[2][1][1] for e in c[2]] if c[0] == 'agg' else []
    # each TU has _GLOBAL__sub_I_...; expand to the individual __cxx_global_var_init functions
    todo = []
    for n in names:
        if n.startswith('_GLOBAL__sub_I'):
            fn = m.fn(n)
            for B in fn.blocks:
                for ins in B.ins:
                    if ins[0] == 'call' and ins[3][0] == 'fn':
                        todo.append(ins[3][1])
        else:
            todo.append(n)
    for n in todo:
        if m.has_body(n) and re.search(pat, init_target(m, n)):
            st, _, es = ex.call_fn(n, [], st)
    return st


def init_target(m, n):
    """names of globals an initialiser mentions"""
    fn = m.fn(n)
    out = [n]

    def w(x):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == 'g':
                out.append(x[1])
            for y in x:
                w(y)
        elif isinstance(x, list):
            for y in x:
                w(y)
    for B in fn.blocks:
        for i in B.ins:
            w(i)
    return ' '.join(out)


def discharge(ex, res, proof, ns, solvers, fpm, timeout, deadline, d):
    from fv import terms as t, smt
    obs = ex.oblig
    out = {'obligations': len(obs), 'discharged': 0, 'trivial': 0, 'failed': [], 'unknown': [], 'backends': {}, 'solver_s': 0.0, 'vacuous': [],
           'names': sorted({o.name for o in obs if o.kind == 'check'}), 'kinds': {}}
    for o in obs:
        out['kinds'][o.kind] = out['kinds'].get(o.kind, 0) + 1
    hard = []
    seen = set()
    for o in obs:
        f = t.and_(*o.pc, t.not_(o.cond)) if o.cond is not t.TRUE else t.FALSE
        if f is t.FALSE:
            out['trivial'] += 1
            out['discharged'] += 1
            continue
        hard.append((o, f))
    out['backends']['simplifier'] = out['trivial']

    def bk(b, n):
        out['backends'][b] = out['backends'].get(b, 0) + n
    facts = list(ex.facts)
    # addresses: aligned, non-null, far from the top of the address space
    if hard:
        done = False
        if len(hard) > 1 and dget(d, 'batch', proof, '1') == '1':
            q = t.or_(*[f for _, f in hard])
            if q is t.FALSE:
                q = None
            if q is not None:
                r = smt.solve([q] + facts, min(timeout, int(dget(d, 'batch_timeout', proof, '20'))), solvers, fpm)
                out['solver_s'] += r[3]
                if r[0] == 'unsat':
                    bk(r[1], len(hard))
                    out['discharged'] += len(hard)
                    done = True
        if not done:
            from concurrent.futures import ThreadPoolExecutor
            nofail = [0]

            def one(of):
                o, f = of
                left = deadline - time.time()
                if left < 2 or nofail[0] >= 4:
                    return o, ('unknown', None, 'budget', 0.0)
                vals = list(ex.inputmap.values())
                r = smt.solve([f] + facts, int(min(timeout, left)), solvers, fpm, vals)
                if r[0] == 'sat':
                    nofail[0] += 1
                return o, r
            with ThreadPoolExecutor(3) as tp:
                for o, r in tp.map(one, hard):
                    out['solver_s'] += r[3]
                    if r[0] == 'unsat':
                        bk(r[1], 1)
                        out['discharged'] += 1
                    else:
                        e = {'name': o.name, 'kind': o.kind, 'fn': ex.dem.get(o.fn, o.fn), 'line': o.line, 'result': r[0], 'solver': r[1]}
                        if r[0] == 'sat':
                            e['model'] = parse_model(r[2], ex)
                            out['failed'].append(e)
                        else:
                            e['detail'] = r[2][:400]
                            out['unknown'].append(e)
    # vacuity: every named check must be reachable
    if not out['failed'] and not out['unknown']:
        bynm = {}
        for o in obs:
            if o.kind == 'check':
                bynm.setdefault(o.name, []).append(t.and_(*o.pc))
        pend = []
        for nm, pcs in bynm.items():
            f = t.or_(*pcs)
            if f is t.TRUE:
                continue
            pend.append((nm, f))
        # the last check's path condition usually covers all
        if pend:
            allc = t.and_(*[f for _, f in pend])
            r = smt.solve([allc] + facts, 10, ('z3-new',) if 'z3-new' in solvers else solvers[:1], False)
            out['solver_s'] += r[3]
            if r[0] != 'sat':
                for nm, f in pend:
                    r = smt.solve([f] + facts, 10, solvers, False)
                    out['solver_s'] += r[3]
                    if r[0] == 'unsat':
                        out['vacuous'].append(nm)
        out['covers'] = len(bynm)
        if not bynm:
            out['vacuous'].append('(no check reached)')
    return out


def parse_model(text, ex):
    vals = {}
    names = list(ex.inputmap)
    items = re.findall(r'\(\((\|[^|]*\||\S+)\s+(.*?)\)\)(?=\s*(?:\(\(|$))', text, re.S)
    for nm, v in items:
        nm = nm.strip('|')
        if not nm.startswith('in!'):
            continue
        nm = nm[3:]
        v = v.strip()
        x = None
        if v.startswith('#x'):
            x = int(v[2:], 16)
        elif v.startswith('#b'):
            x = int(v[2:], 2)
        elif v in ('true', 'false'):
            x = int(v == 'true')
        else:
            m = re.match(r'\(fp #b(\d) (#[bx][0-9a-f]+) (#[bx][0-9a-f]+)$', v) or re.match(r'\(fp #b(\d) (#[bx][0-9a-f]+) (#[bx][0-9a-f]+)\)', v)
            if m:
                def bits(s, w):
                    return int(s[2:], 2 if s[1] == 'b' else 16)
                x = (int(m.group(1)) << 63) | (bits(m.group(2), 11) << 52) | bits(m.group(3), 52)
            elif '+zero' in v:
                x = 0
            elif '-zero' in v:
                x = 1 << 63
            elif '+oo' in v:
                x = 0x7ff << 52
            elif '-oo' in v:
                x = 0xfff << 52
            elif 'NaN' in v:
                x = (0x7ff << 52) | 1
            else:
                m = re.match(r'\(_ bv(\d+) ', v)
                if m:
                    x = int(m.group(1))
        if x is not None:
            vals[nm] = x
    return vals


class Native:
    """native build of the contract file, for replays and witness search"""

    def __init__(self, src, work, d):
        self.src, self.d = src, d
        self.bin = os.path.join(work, os.path.basename(src) + '.native')
        self.ok = None
        self.err = ''

    def build(self):
        if self.ok is None:
            self.ok, self.err = compile_native(self.src, self.bin, self.d)
        return self.ok

    def _run(self, cmd, to):
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, timeout=to, errors='replace', cwd=os.path.dirname(self.bin))
            return r.returncode, r.stdout
        except subprocess.TimeoutExpired:
            return None, 'timeout'

    def replay(self, proof, model, path):
        with open(path, 'w') as f:
            f.write(f'# proof {proof}\n')
            for k, v in model.items():
                f.write(f'{k} {v}\n')
        rc, out = self._run([self.bin, 'replay', proof, path], 60)
        # a run that dies (signal) or reports a failed check reproduces the violation
        return rc is not None and (rc == 1 or rc < 0), out

    def search(self, proof, secs, seed, path):
        rc, out = self._run([self.bin, 'search', proof, str(secs), str(seed), path], secs + 45)
        m = re.search(r'tried (\d+) valid (\d+)', out or '')
        cnt = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
        if rc == 1:
            return 'fail', out, cnt
        if rc is None or rc < 0:
            return 'crash', f'native run ended with {rc}: {out}', cnt
        return 'none', out, cnt


def load_known(prop):
    p = os.path.join(ROOT, 'known-findings.txt')
    out = []
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'KNOWN-FINDING:\s*property=(\S+)\s+proof=(\S+)\s+(.*)$', line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only', default=None)
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--keep', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    prop = a.prop
    budget = 600 if a.tier == 'quick' else 780
    deadline = t0 + budget
    srcs = sorted(f for f in os.listdir(os.path.join(ROOT, 'contracts')) if re.match(prop + r'(_\w+)?\.cpp$', f))
    if not srcs:
        print(f'no contract file for {prop}')
        return 2
    work = tempfile.mkdtemp(prefix=f'fv_{prop}_')
    rc = 2
    try:
        rc = run(a, prop, [os.path.join(ROOT, 'contracts', s) for s in srcs], work, seed, deadline, t0)
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)
    return rc


def run(a, prop, srcs, work, seed, deadline, t0):
    from concurrent.futures import ThreadPoolExecutor
    tp = ThreadPoolExecutor(8)
    files = []
    for s in srcs:
        d = directives(s)
        bc = os.path.join(work, os.path.basename(s) + '.bc')
        nat = Native(s, work, d)
        files.append([s, d, bc, nat, tp.submit(compile_ir, s, bc, d), tp.submit(nat.build)])
    cmdline = ''
    jobs = []
    owner = {}
    compile_failed = []
    for f in files:
        ok, err, cmdline = f[4].result()
        if not ok:
            compile_failed.append((f, err))
            continue
        pr = list_proofs(f[2])
        for p in pr:
            if a.only and not re.search(a.only, p):
                continue
            if dget(f[1], 'tier', p) == 'thorough' and a.tier != 'thorough':
                continue
            jobs.append((f[2], f[1], p, max(30, deadline - time.time())))
            owner[p] = f
    if compile_failed:
        for f, err in compile_failed:
            print(f'ERROR: contract file {os.path.basename(f[0])} does not compile against /repo:\n{err[:3000]}')
        return 2
    heavy = {p: int(dget(owner[p][1], 'weight', p, '1')) for p in owner}
    jobs.sort(key=lambda j: -heavy[j[2]])
    results = []
    nproc = int(os.environ.get('FV_JOBS', '5'))
    with mp.get_context('fork').Pool(nproc, maxtasksperchild=8) as pool:
        it = pool.imap_unordered(run_proof, jobs)
        # native side: the same contracts, executed on the real code (cross-check of the engine; not counted as proof)
        quick_s = float(os.environ.get('FV_NATIVE_S', '1.5' if a.tier == 'quick' else '15'))
        searches = {}

        def native_search(p):
            f = owner[p]
            if not f[5].result():
                return 'none', '', (0, 0)
            return f[3].search(p, quick_s, seed, os.path.join(work, p + '.witness'))
        for j in jobs:
            if dget(j[1], 'native', j[2], '1') != '0':
                searches[j[2]] = tp.submit(native_search, j[2])
        known = dict(load_known(prop))
        replays = {}
        stop = deadline + 60
        for _ in jobs:
            r = None
            while r is None:
                # once the real code has been seen to fail, the remaining proofs get a little more time only
                if stop > time.time() + 60 and (any(v[0] for v in replays.values()) or any(p not in known and s.done() and s.result()[0] != 'none' for p, s in searches.items())):
                    stop = time.time() + 60
                try:
                    r = it.next(timeout=min(5, max(1, stop - time.time())))
                except mp.TimeoutError:
                    if time.time() >= stop:
                        break
            if r is None:
                break
            results.append(r)
            if r['status'] == 'failed' and r['proof'] in searches and owner[r['proof']][5].result():
                wit = os.path.join(work, r['proof'] + '.witness.m')
                for x in r['failed']:
                    ok, out = owner[r['proof']][3].replay(r['proof'], x.get('model', {}), wit)
                    replays[r['proof']] = (ok and r['proof'] not in known, ok, out)
                    if ok:
                        break
            if a.v:
                print(f"  {r['proof']}: {r['status']} obl={r['obligations']} triv={r['trivial']} be={r['backends']} wall={r['wall']:.1f}s solver={r['solver_s']:.1f}s {r['note']} vac={r['vacuous']}")
                for x in (r['failed'] + r['unknown'])[:6]:
                    print('     ', {k: (v if k != 'fn' else v[:90]) for k, v in x.items()})
        got = {r['proof'] for r in results}
        for j in jobs:
            if j[2] not in got:
                results.append({'proof': j[2], 'status': 'unsupported', 'note': 'no result within the time budget', 'obligations': 0, 'discharged': 0,
                                'trivial': 0, 'failed': [], 'unknown': [], 'backends': {}, 'solver_s': 0, 'functions': [], 'replaced': [], 'vacuous': [], 'wall': 0})
        pool.terminate()
    natok = all(f[5].result() for f in files)
    if not natok:
        for f in files:
            if not f[3].ok:
                print('ERROR: native build failed:\n' + f[3].err[:3000])
        return 2
    native_counts = {}
    viol = []
    rdir = os.path.join(ROOT, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    knownhit = []
    undecided = []
    errors = []
    for r in sorted(results, key=lambda r: r['proof']):
        p = r['proof']
        f = owner[p]
        nat = f[3]
        wit = os.path.join(work, p + '.witness')
        found = None
        detail = ''
        usenat = dget(f[1], 'native', p, '1') != '0'
        if replays.get(p, (0, 0, ''))[1]:
            found = wit + '.m'
            detail = replays[p][2]
        st, out, cnt = ('none', '', (0, 0))
        if usenat:
            st, out, cnt = searches[p].result()
            native_counts[p] = cnt
            if st in ('fail', 'crash') and found is None:
                if st == 'fail':
                    found, detail = wit, out
                else:
                    # a crash of the search process itself: treat as a failing run of the real code
                    found, detail = wit, out
                    open(wit, 'a').write('# the native run crashed\n' + out)
        if found is None and r['status'] in ('failed', 'unknown', 'unsupported') and usenat and not (viol and viol[-1][2] and r['status'] != 'failed'):
            secs = min(40, max(5, deadline - time.time()))
            subs = [tp.submit(nat.search, p, secs, seed * 1000 + k, wit + f'.{k}') for k in range(4)]
            for k, s in enumerate(subs):
                st, out, c2 = s.result()
                cnt = (cnt[0] + c2[0], cnt[1] + c2[1])
                if st == 'fail' and found is None:
                    found, detail = wit + f'.{k}', out
            native_counts[p] = cnt
        bad = r['status'] == 'failed' or found is not None
        if r['status'] == 'failed' and found is None and r.get('uf') and not r.get('loopfail') and usenat:
            # the counterexample depends on the value of a function left uninterpreted
            bad = False
            r['status'] = 'unknown'
            r['unknown'] = r['unknown'] + r['failed']
            r['note'] = 'counterexample relies on uninterpreted ' + ', '.join(r['uf'])
        if r.get('loopfail') and found is None:
            bad = False
            r['status'] = 'unknown'
            r['note'] = 'loop contract or witness does not fit the current code: ' + '; '.join(x['name'] for x in r['failed'])
        if bad:
            rp = os.path.join(rdir, f'{prop}_{p}.txt')
            with open(rp, 'w') as w:
                w.write(f'property {prop}, proof {p}\n')
                for x in r['failed']:
                    w.write(f"failed obligation: {x['name']} ({x['kind']}) in {x['fn']} near line {x['line']}, refuted by {x['solver']}\n")
                    w.write('verifier counterexample: ' + json.dumps(x.get('model', {})) + '\n')
                for x in r['unknown']:
                    w.write(f"undischarged obligation: {x['name']} in {x['fn']} near line {x['line']}: {x.get('detail','')}\n")
                if r['note']:
                    w.write('note: ' + r['note'] + '\n')
                if found:
                    w.write('failing input, reproduced on the real code:\n')
                    if os.path.exists(found):
                        w.write(open(found).read())
                    w.write('\nnative run:\n' + (detail or '') + '\n')
                    w.write(f'\nrebuild and rerun: clang++ -std=c++20 -O1 -w {" ".join(incs(f[1]))} -fsanitize={UBSAN} -fsanitize-trap=all {f[0]} {ROOT}/fv/native.cpp {" ".join(dall(f[1],"lib"))} -o /tmp/replay && '
                            f'sed -n "s/^\\([^ #:]* [0-9][0-9]*\\)$/\\1/p" {rp} > /tmp/replay.in && /tmp/replay replay {p} /tmp/replay.in\n')
                else:
                    w.write('no failing input found by replaying the counterexample nor by native search\n')
            if p in known:
                knownhit.append((p, known[p]))
            else:
                viol.append((p, rp, found is not None))
        elif r['status'] == 'proved':
            if r['vacuous']:
                errors.append(f"{p}: vacuous checks {r['vacuous']}")
        elif r['status'] in ('unknown', 'unsupported'):
            undecided.append((p, r))
        else:
            errors.append(f"{p}: {r['note']}")
    wall = time.time() - t0
    isb = {p for p in owner if dget(owner[p][1], 'bounded', p)}
    nob = sum(r['obligations'] for r in results if r['proof'] not in isb)
    ndis = sum(r['discharged'] for r in results if r['proof'] not in isb)
    bob = sum(r['obligations'] for r in results if r['proof'] in isb)
    bdis = sum(r['discharged'] for r in results if r['proof'] in isb)
    be = {}
    kinds = {}
    for r in results:
        for k, v in r['backends'].items():
            be[k] = be.get(k, 0) + v
        for k, v in r.get('kinds', {}).items():
            kinds[k] = kinds.get(k, 0) + v
    fns = sorted({x for r in results for x in r['functions']})
    static = {}
    for f in files:
        static.update(callgraph(f[2], [p for p in owner if owner[p] is f]))
    repo_fns = sorted({x for r in results if r['status'] in ('proved', 'failed', 'unknown') for x in static.get(r['proof'], ())})
    bounded = [p for p in owner if dget(owner[p][1], 'bounded', p)]
    bnotes = [f"{p}: bounded: {dget(owner[p][1], 'bounded', p)}" for p in bounded]
    ev = {'property': prop, 'tier': a.tier, 'seed': seed, 'level': 'proof' if not undecided and len(bounded) < len(owner) else 'other',
          'coverage': {
              'obligations': nob, 'discharged': ndis,
              'checker_cmd': f'./check {prop} --tier {a.tier}   [{cmdline}; passes {PIPE["light"]}; VC generator fv/exec.py; z3-new, cvc5, z3]',
              'trusted_base': TRUSTED + sum([dall(f[1], 'trust') for f in files], []),
              'explanation': 'obligations generated from the LLVM IR of the current /repo sources and discharged for all inputs; '
                             'native_* counts are executions of the same contracts on the real code, a cross-check that is not counted as proof',
              'proofs': len(results), 'obligations_by_kind': kinds, 'discharged_by': be,
              'solver_seconds': round(sum(r['solver_s'] for r in results), 2),
              'functions_executed_symbolically': len(fns), 'repo_functions_under_contract': repo_fns,
              'calls_replaced_by_contract': sorted({x for r in results for x in r['replaced']}),
              'loop_contracts': sorted({x for r in results for x in r.get('loops', [])}),
              'uninterpreted_functions': sorted({x for r in results for x in r.get('uf', [])}),
              'named_checks': sum(len(r.get('names', [])) for r in results),
              'vacuity_covers': sum(r.get('covers', 0) for r in results),
              'bounded_proofs': bnotes, 'bounded_obligations_not_counted_as_proved': bob, 'bounded_obligations_discharged': bdis,
              'undecided': [{'proof': p, 'status': r['status'], 'note': r['note'], 'bounded_stand_in': f'native search, {native_counts.get(p)} (tried, satisfying the precondition), no failure'} for p, r in undecided],
              'native_inputs_tried': sum(c[0] for c in native_counts.values()), 'native_inputs_valid': sum(c[1] for c in native_counts.values()),
              'samples': [{'proof': r['proof'], 'checks': r.get('names', [])[:6], 'obligations': r['obligations'], 'wall_s': round(r['wall'], 2)} for r in results[:40]],
          },
          'assumptions': sum([dall(f[1], 'assume') for f in files], []) + bnotes,
          'wall_s': round(wall, 2), 'violations': len(viol)}
    # evidence is measured on every run
    if not a.only:
        with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as w:
            json.dump(ev, w, indent=1)
    print(f'{prop}: {len(results)} proofs, {ndis}/{nob} obligations discharged' + (f' (+ {bdis}/{bob} of bounded stand-ins)' if bob else '') + f' ({be}), {len(repo_fns)} repo functions, {wall:.1f}s')
    for p, what in knownhit:
        print(f'KNOWN-FINDING: property={prop} {what}')
    for p, rp, wf in viol:
        print(f'VIOLATION property={prop} replay={rp}' + ('' if wf else ' no-failing-input-found'))
    if viol:
        return 1
    for p, r in undecided:
        print(f"UNDECIDED (bounded stand-in passed, not proved): {p}: {r['note']} {[x['name'] for x in r['unknown']]}")
    if errors:
        for e in errors:
            print('ERROR: ' + e)
        return 2
    return 0


def callgraph(bc, proofs):
    """functions reachable from each proof in the IR before any pass (inlining hides them from the executor)"""
    dis = shutil.which('llvm-dis-18') or shutil.which('llvm-dis')
    r = subprocess.run([dis, '-o', '-', bc], capture_output=True, text=True, errors='replace')
    g, sp, subf, fil = {}, {}, {}, {}
    cur = None
    nm = r'@("(?:[^"\\\\]|\\\\.)*"|[-\w.$]+)'
    for line in r.stdout.split('\n'):
        if line.startswith('define'):
            m = re.search(nm + r'\(', line)
            cur = m.group(1).strip('"')
            g[cur] = set()
            m = re.search(r'!dbg !(\d+)', line)
            sp[cur] = m.group(1) if m else None
        elif line.startswith('!'):
            m = re.match(r'!(\d+) = (?:distinct )?!DISubprogram\(.*?file: !(\d+)', line)
            if m:
                subf[m.group(1)] = m.group(2)
            else:
                m = re.match(r'!(\d+) = !DIFile\(filename: "([^"]*)"', line)
                if m:
                    fil[m.group(1)] = m.group(2)
        elif line.startswith('}'):
            cur = None
        elif cur is not None:
            for m in re.finditer(nm, line):
                g[cur].add(m.group(1).strip('"'))
    out = {}
    for p in proofs:
        seen = set()
        work = ['fvproof_' + p]
        while work:
            x = work.pop()
            if x in seen or x not in g:
                continue
            seen.add(x)
            work.extend(g[x])
        out[p] = seen
    allf = sorted(set().union(*out.values())) if out else []
    dem = cxxfilt(allf)
    rp = {x for x in allf if fil.get(subf.get(sp.get(x)), '').startswith(REPO + '/')}
    return {p: {dem[x] for x in v if x in rp} for p, v in out.items()}


def list_proofs(bc):
    r = subprocess.run(['llvm-nm-18' if shutil.which('llvm-nm-18') else 'llvm-nm', bc], capture_output=True, text=True)
    return sorted(set(re.findall(r'\bfvproof_(\w+)', r.stdout)))


if __name__ == '__main__':
    sys.exit(main())
