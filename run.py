#!/usr/bin/env python3
"""Driver: decides one property of /repo by symbolic execution of its code.

  run.py C01 [--tier quick|thorough]

Compiles the property's harnesses against /repo's current headers to LLVM bitcode, runs the symbolic executor
(build/symex) over all shards, replays witnesses and counterexamples natively, writes evidence/<id>.json.
"""
import sys, os, re, json, subprocess, tempfile, shutil, time, glob, concurrent.futures as cf
ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('CTHASH_REPO', '/repo')
sys.path.insert(0, ROOT)
from checks import CHECKS
from props import P

NCPU = min(8, os.cpu_count() or 1)
PASSES = 'always-inline,cgscc(inline),function(sroa,early-cse,simplifycfg,instcombine<no-verify-fixpoint>,simplifycfg),globaldce'
UBFLAGS = ['-fsanitize=bounds,shift,signed-integer-overflow,integer-divide-by-zero,null,alignment,return,unreachable,bool,enum,pointer-overflow,builtin,nonnull-attribute,returns-nonnull-attribute,vla-bound,float-cast-overflow',
           '-fsanitize-trap=all', '-D_GLIBCXX_ASSERTIONS']

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

class BuildError(Exception): pass
def errs(out): return '\n'.join([l for l in out.splitlines() if 'error' in l][:6]) or out[-1500:]

def forced_headers(dst):
    """copy of the headers in which the constant-evaluation branches are the ones executed"""
    src = os.path.join(REPO, 'include')
    shutil.copytree(src, dst)
    n = 0
    for f in glob.glob(dst + '/**/*.hpp', recursive=True):
        t = open(f).read()
        t2 = re.sub(r'\bif\s+consteval\s*\{', 'if (true) {', t)
        t2 = re.sub(r'\bif\s+not\s+consteval\s*\{', 'if (false) {', t2)
        t2 = re.sub(r'\bif\s*!\s*consteval\s*\{', 'if (false) {', t2)
        t2 = re.sub(r'\bif\s*\(\s*(consteval)\s*\)', 'if (true)', t2)
        t2 = re.sub(r'\b(std\s*::\s*)?is_constant_evaluated\s*\(\s*\)', 'true', t2)
        t2 = re.sub(r'\b__builtin_is_constant_evaluated\s*\(\s*\)', 'true', t2)
        if t2 != t: n += 1
        open(f, 'w').write(t2)
    return n

def build_bc(work, src, variant):
    inc = os.path.join(REPO, 'include')
    if variant.startswith('forced'): inc = os.path.join(work, 'forced')
    base = os.path.join(work, src.replace('.cpp', '') + '_' + variant)
    flags = []
    if 'ub' in variant: flags += UBFLAGS
    if 'single' in variant: flags += ['-DUSE_SINGLE_HEADER']
    if 'ppc' in variant: flags += ['--target=powerpc64-linux-gnu']
    cmd = ['clang++-18', '-std=c++23', '-O1', '-Xclang', '-disable-llvm-passes', '-DSYMBOLIC', '-w',
           '-I' + inc, '-I' + os.path.join(ROOT, 'harness'), '-include', os.path.join(ROOT, 'harness', 'prelude.hpp'), '-emit-llvm', '-c', os.path.join(ROOT, 'harness', src), '-o', base + '.raw.bc'] + flags
    r = sh(cmd)
    if r.returncode: raise BuildError('%s (%s): %s' % (src, variant, errs(r.stdout)))
    r = sh(['opt-18', '-passes=' + PASSES, base + '.raw.bc', '-o', base + '.bc'])
    if r.returncode: raise BuildError('opt %s: %s' % (src, r.stdout[-2000:]))
    return base

def build_native(work, src, variant, mode='plain'):
    inc = os.path.join(REPO, 'include')
    if variant.startswith('forced'): inc = os.path.join(work, 'forced')
    out = os.path.join(work, src.replace('.cpp', '') + '_' + variant + '_' + mode + '.exe')
    if os.path.exists(out): return out
    flags = ['-DUSE_SINGLE_HEADER'] if 'single' in variant else []
    if mode == 'plain': cmd = ['g++-14', '-O1']
    elif mode == 'asan': cmd = ['clang++-18', '-O1', '-g', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS']
    elif mode == 'clang': cmd = ['clang++-18', '-O2']
    cmd += ['-std=c++23', '-w', '-I' + inc, '-I' + os.path.join(ROOT, 'harness'), '-rdynamic',
           os.path.join(ROOT, 'harness', src), os.path.join(ROOT, 'harness', 'replay.cpp'), '-o', out, '-ldl'] + flags
    r = sh(cmd)
    if r.returncode: raise BuildError('native %s (%s): %s' % (src, mode, errs(r.stdout)))
    return out

def shown_functions(fs): # the code under test, readable and bounded in size
    ours = sorted(f for f in fs if 'cthash' in f)
    r = subprocess.run(['c++filt'], input='\n'.join(ours), stdout=subprocess.PIPE, text=True)
    names = sorted({l[:200] for l in r.stdout.splitlines()})
    return names[:600]

def load_known():
    p = os.path.join(ROOT, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else {'findings': [], 'fixed': []}

def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    only = sys.argv[sys.argv.index('--only') + 1] if '--only' in sys.argv else None
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    chk = CHECKS[pid]
    t0 = time.time()
    hard = 780 if tier == 'quick' else 5400
    work = tempfile.mkdtemp(prefix='cthash_verif_')
    rc = 2
    try:
        rc = run(pid, chk, tier, seed, work, t0, hard, only)
    except BuildError as e:
        print('ERROR: build failed: %s' % e)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)

def run(pid, chk, tier, seed, work, t0, hard, only):
    if not os.path.exists(os.path.join(ROOT, 'build', 'symex')):
        r = sh(['bash', os.path.join(ROOT, 'engine', 'build.sh')])
        if r.returncode: raise BuildError(r.stdout)
    jobs = [j for j in chk['jobs'] if j.get('tier', 'quick') == 'quick' or tier == 'thorough']
    if only: jobs = [j for j in jobs if re.search(only, j['entry'])]
    variants = sorted({(j['src'], j.get('variant', 'run')) for j in jobs})
    forced_files = 0
    if any(v.startswith('forced') for _, v in variants): forced_files = forced_headers(os.path.join(work, 'forced'))
    pool = cf.ThreadPoolExecutor(NCPU)
    bcs = {k: pool.submit(build_bc, work, *k) for k in variants}
    bcs = {k: f.result() for k, f in bcs.items()}
    natives = {k: pool.submit(build_native, work, *k) for k in variants}
    tasks = []
    for j in jobs:
        key = (j['src'], j.get('variant', 'run'))
        ns = j.get('shards', 1)
        for s in range(ns):
            tasks.append((j, key, ns, s, j.get('cost', 1) / ns))
    tasks.sort(key=lambda t: -t[4])
    def exec_task(t):
        j, key, ns, s, _ = t
        out = os.path.join(work, 'o_%s_%s' % (j['entry'], key[1])); os.makedirs(out, exist_ok=True)
        left = hard - (time.time() - t0) - 20
        if left < 5: return (t, None, 'no time left')
        cmd = [os.path.join(ROOT, 'build', 'symex'), bcs[key] + '.bc', '--raw', bcs[key] + '.raw.bc', '--entry', j['entry'], '--out', out, '--seed', str(seed), '--shard', str(s), '--nshards', str(ns),
               '--budget', str(int(left)), '--qtimeout', str(j.get('qtimeout', 60000)), '--witnesses', str(j.get('witnesses', 2))]
        if j.get('audit', True):
            cmd.append('--audit')
            if tier == 'quick' or j.get('audit') == 'sample': cmd += ['--audit-per', '1']
        try: r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=left + 60)
        except subprocess.TimeoutExpired: return (t, None, 'timeout')
        rf = os.path.join(out, 'result_%d.json' % s)
        if not os.path.exists(rf): return (t, None, 'executor died: %s' % r.stderr[-1500:])
        return (t, json.load(open(rf)), r.stderr)
    results = list(pool.map(exec_task, tasks))
    natives = {k: f.result() for k, f in natives.items()}

    problems, ces = [], []
    tot = {}
    functions, ranges, checks, reach = set(), {}, {}, {}
    per_entry = {}
    for t, r, err in results:
        j = t[0]; name = j['entry'] + ('' if j.get('variant', 'run') == 'run' else '@' + j['variant'])
        if r is None: problems.append('%s shard %d: %s' % (name, t[3], err)); continue
        if r['status'] != 'complete': problems.append('%s shard %d: %s' % (name, t[3], r['why']))
        for k, v in r.items():
            if isinstance(v, (int, float)) and k != 'shard': tot[k] = tot.get(k, 0) + v
        functions.update(r['functions'])
        pe = per_entry.setdefault(name, {'paths': 0, 'obligations': 0, 'reach': {}, 'ranges': {}})
        pe['paths'] += r['paths']; pe['obligations'] += r['eq_checks'] + r['bool_checks']
        for k, v in r['reach'].items(): pe['reach'][k] = pe['reach'].get(k, 0) + v
        pe['ranges'].update(r['ranges'])
        for k, v in r['checks'].items(): checks[k] = checks.get(k, 0) + v
        for v in r['violations']: ces.append((t, v))
    # vacuity: every entry must have reached its end marker with at least one discharged obligation
    reduced = []
    violated_entries = {t[0]['entry'] for t, _ in ces}
    for name, pe in per_entry.items():
        if name.split('@')[0] in violated_entries: continue
        if pe['reach'].get('not-representable'):
            reduced.append(name + ': the hasher keeps its state in a form this harness does not generalise; whole-message entries decide alone')
            continue
        if not pe['paths'] or not pe['reach'].get('end'): problems.append('%s: vacuous, end never reached' % name)
        if not pe['obligations']: problems.append('%s: vacuous, no obligation' % name)
    # witness replay: the engine's prediction against the real machine code
    validated, mism = 0, []
    wit_samples = []
    def replay(exe, f, pre=[]):
        try: r = subprocess.run(pre + [exe, f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120, errors='replace', cwd=work)
        except subprocess.TimeoutExpired: return 99, 'timeout'
        return r.returncode, r.stdout
    wits = []
    for j in jobs:
        key = (j['src'], j.get('variant', 'run'))
        out = os.path.join(work, 'o_%s_%s' % (j['entry'], key[1]))
        fs = sorted(glob.glob(out + '/wit_*.txt'))
        if len(fs) > 24: fs = fs[::max(1, len(fs) // 24)]
        wits += [(key, f) for f in fs]
    if not ces:
        for (key, f), (rc, o) in zip(wits, pool.map(lambda kf: replay(natives[kf[0]], kf[1]), wits)):
            want = [l[5:].strip() for l in open(f) if l.startswith('!out ')]
            got = [l[4:].strip() for l in o.splitlines() if l.startswith('OUT ')]
            if rc == 0 and want == got and 'REPLAY-OK' in o: validated += 1
            else: mism.append('%s: native rc=%d engine=%s native=%s' % (os.path.basename(os.path.dirname(f)), rc, want[:2], (got[:2] or o[-300:])))
            if len(wit_samples) < 4 and want:
                wit_samples.append({'entry': os.path.basename(os.path.dirname(f))[2:], 'assignment': ''.join(open(f).readlines()[1:8])[:300], 'outputs': want[:2]})
        if mism: problems.append('translator validation failed: ' + '; '.join(mism[:3]))
    # counterexamples: replay natively
    confirmed, unconfirmed = [], []
    rdir = os.path.join(ROOT, 'replays', pid)
    if ces:
        shutil.rmtree(rdir, ignore_errors=True); os.makedirs(rdir, exist_ok=True)
    for i, (t, v) in enumerate(ces[:12]):
        j, key = t[0], t[1]
        ok = False; log = ''
        for mode in ('plain', 'asan', 'clang', 'memcheck'):
            try: exe = natives[key] if mode in ('plain', 'memcheck') else build_native(work, key[0], key[1], mode)
            except BuildError as e: log += str(e)[-300:]; continue
            rc, o = replay(exe, v['file'], ['valgrind', '-q', '--error-exitcode=42'] if mode == 'memcheck' else [])
            if rc not in (0, 2, 99): ok = True; log += '\n[%s] rc=%d\n%s' % (mode, rc, o[-2500:]); break
            log += '\n[%s] rc=%d did not reproduce' % (mode, rc)
        dst = os.path.join(rdir, 'ce_%d.txt' % i)
        with open(dst, 'w') as o:
            o.write('# property %s\n# %s\n# harness %s entry %s variant %s\n' % (pid, v['what'].replace('\n', ' '), key[0], j['entry'], key[1]))
            o.write('# replay: g++-14 -std=c++23 -I/repo/include -I%s/harness -rdynamic %s/harness/%s %s/harness/replay.cpp -o r && ./r %s\n' % (ROOT, ROOT, key[0], ROOT, dst))
            o.write(open(v['file']).read())
            for l in log.splitlines(): o.write('# ' + l + '\n')
        (confirmed if ok else unconfirmed).append((v, dst, j))
        if ok and len(confirmed) >= 3: break
    known = load_known()
    viol = 0; kf = set()
    for v, dst, j in confirmed:
        hit = None
        for k in known['findings']:
            if k['property'] == pid and re.search(k['match'], j['entry'] + ': ' + v['what']): hit = k; break
        if hit:
            if hit['id'] not in kf: print('KNOWN-FINDING: property=%s %s' % (pid, hit['what'])); kf.add(hit['id'])
        else:
            viol += 1
            print('VIOLATION property=%s replay=%s' % (pid, dst))
            print('  %s: %s' % (j['entry'], v['what'][:600]))
    for v, dst, j in unconfirmed[:3]:
        problems.append('counterexample not reproduced natively: %s: %s (%s)' % (j['entry'], v['what'][:300], dst))
    wall = time.time() - t0
    queries = sum(int(tot.get(k, 0)) for k in ('q_branch', 'q_full', 'q_lemma', 'q_bounds', 'q_audit', 'q_other'))
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'wall_s': round(wall, 2), 'violations': viol,
        'coverage': {
            'states': int(tot.get('forks', 0)) + len(tasks), 'transitions': int(tot.get('insts', 0)),
            'traces_validated_against_impl': validated, 'samples': wit_samples,
            'method': 'symbolic execution of the LLVM IR of the real headers; equality/assertion obligations decided by term normalisation plus z3 4.8.12',
            'paths_completed': int(tot.get('paths', 0)), 'symbolic_branches': int(tot.get('symbolic_branches', 0)),
            'obligations': int(tot.get('eq_checks', 0) + tot.get('bool_checks', 0)),
            'obligations_equal_after_normalisation': int(tot.get('eq_structural', 0) + tot.get('bool_const', 0)),
            'obligations_by_xor_expansion': int(tot.get('xor_equal', 0)), 'obligations_by_solver_lemmas': int(tot.get('eq_sweep', 0)), 'obligations_by_full_solver_query': int(tot.get('eq_full', 0) + tot.get('bool_solver', 0)),
            'bytes_compared': int(tot.get('eq_bytes', 0)), 'memory_accesses_bounds_checked': int(tot.get('bounds_checks', 0)),
            'solver_queries': queries, 'solver_queries_by_kind': {k[2:]: int(tot.get(k, 0)) for k in ('q_branch', 'q_full', 'q_lemma', 'q_bounds', 'q_audit', 'q_other')},
            'solver_seconds': round(tot.get('z3time', 0), 3), 'terms_built': int(tot.get('terms', 0)), 'rewrites_self_checked': int(tot.get('rewrites', 0)), 'rewrite_shapes_proven_by_solver': int(tot.get('audit_shapes', 0)),
            'lemma_instances': int(tot.get('lemma_uses', 0)),
            'bounds': P[pid]['bounds'], 'outside_the_bounds': P[pid]['outside'], 'entries': per_entry, 'checks': checks,
            'functions_encoded': shown_functions(functions), 'functions_encoded_total': len(functions), 'known_findings_hit': sorted(kf), 'inconclusive': problems[:10], 'reduced_coverage': reduced,
            'constant_evaluation_headers_rewritten': forced_files, 'exhaustive': not problems,
        },
        'assumptions': chk.get('assumptions', []) + COMMON_ASSUMPTIONS,
    }
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s: %d paths, %d obligations, %d queries, %.1fs solver, %d witnesses replayed, %.1fs wall' % (pid, tot.get('paths', 0), ev['coverage']['obligations'], queries, tot.get('z3time', 0), validated, wall))
    if viol: return 1
    if problems:
        for p in problems[:8]: print('INCONCLUSIVE: ' + p)
        return 2
    return 0

COMMON_ASSUMPTIONS = [
    'the IR clang 18 produces for x86-64 with libstdc++ 14 at -O1 (no optimisation passes) followed by always-inline, inline, sroa, early-cse, simplifycfg, instcombine is a faithful translation of the source',
    'operator new never fails; libstdc++ functions outside the headers (exception objects, locale, ostream character sink) are replaced by the models listed in DESIGN.md',
]
if __name__ == '__main__': main()
