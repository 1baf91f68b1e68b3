#!/usr/bin/env python3
"""Decides one property: lowers /repo's current sources and the property's harnesses to LLVM IR,
runs them under the symbolic executor (engine/nsx.cpp + z3), replays every counterexample and a
sample of the explored paths on the native sanitizer build of the same sources, writes the evidence.
usage: check.py PROPERTY [quick|thorough] [--run NAME] [-v]"""
import sys, os, json, subprocess, hashlib, time, shutil, glob, re
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('NSX_REPO', '/repo')
BUILD = os.environ.get('NSX_BUILD', os.path.join(V, '.build'))
sys.path.insert(0, os.path.join(V, 'tools'))
import specs
JOBS = int(os.environ.get('NSX_JOBS', str(os.cpu_count() or 4)))

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise BuildError('BUILD-ERROR: ' + ' '.join(cmd) + '\n' + r.stdout[-6000:])
    return r.stdout

def digest(files, extra=''):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(f.encode()); h.update(open(f, 'rb').read())
    return h.hexdigest()[:20]

def tree(*dirs):
    out = []
    for d in dirs:
        for r, _, fs in os.walk(d):
            out += [os.path.join(r, f) for f in fs if f.endswith(('.cpp', '.hpp', '.h', '.c')) or 'stubs' in r]
    return out

LLVM = '/usr/lib/llvm-18'
def engine():
    e = os.path.join(V, 'engine'); files = tree(e)
    out = os.path.join(BUILD, 'engine-' + digest(files)); exe = out + '/nsx'
    if os.path.exists(exe): return exe
    tmp = out + '.tmp%d' % os.getpid(); os.makedirs(tmp, exist_ok=True)
    F = ['g++', '-std=c++20', '-O2', '-I' + LLVM + '/include', '-D_GNU_SOURCE', '-D__STDC_CONSTANT_MACROS', '-D__STDC_FORMAT_MACROS', '-D__STDC_LIMIT_MACROS']
    mods = ['expr', 'smt', 'nsx']
    with ThreadPoolExecutor(3) as p:
        list(p.map(lambda m: sh(F + ['-c', f'{e}/{m}.cpp', '-o', f'{tmp}/{m}.o']), mods))
    sh(['g++', '-o', tmp + '/nsx'] + [f'{tmp}/{m}.o' for m in mods] + ['-L' + LLVM + '/lib', '-lLLVM-18', '-lz3'])
    try: os.rename(tmp, out)
    except OSError: shutil.rmtree(tmp)
    return exe

IRF = ['-std=c++20', '-O1', '-g1', '-fno-pie', '-fno-vectorize', '-fno-slp-vectorize', '-emit-llvm', '-D_GLIBCXX_ASSERTIONS',
       '-isystem', V + '/stubs/std', '-I' + V + '/stubs/sentinel', '-I' + REPO + '/include', '-I' + REPO, '-I' + V, '-DNSX_IR']
NF = ['-std=c++20', '-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize=vptr', '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS',
      '-I' + V + '/stubs/sentinel', '-I' + REPO + '/include', '-I' + REPO, '-I' + V]
# not lowered: they read files through liblzma/libbz2 (but for the decoder's own harness) or write files
NOT_LOWERED = ('src/utils/decoder.cpp', 'src/exporter/implication_graph_exporter.cpp')

def repo_sources():
    return sorted(os.path.relpath(os.path.join(r, f), REPO) for r, _, fs in os.walk(REPO + '/src') for f in fs if f.endswith('.cpp'))

class BuildError(Exception): pass
POOL = ThreadPoolExecutor(JOBS)
_done = {}
def one(cmd, out):
    """runs a compile or link command once per output"""
    if not os.path.exists(out):
        t = out + '.%d' % os.getpid(); sh(cmd + ['-o', t]); os.rename(t, out)
    return out
def submit(cmd, out):
    if out not in _done: _done[out] = POOL.submit(one, cmd, out)
    return _done[out]

class Build:
    """Bitcode and native program of a harness, rebuilt when any source changed. Compilation goes on in the
    background; prog() and nat() wait for what they need."""
    def __init__(self, harness, defs=(), srcs=None):
        files = tree(REPO + '/src', REPO + '/include', V + '/stubs', V + '/runtime', V + '/engine', V + '/harness')
        self.D = ['-D' + x for x in defs]; self.h = harness
        self.d = d = os.path.join(BUILD, 'obj-' + digest(files, ' '.join(IRF + NF + self.D)))
        for old in glob.glob(BUILD + '/obj-*'):
            if time.time() - os.path.getmtime(old) > 3600 * 3: shutil.rmtree(old, ignore_errors=True)
        os.makedirs(d, exist_ok=True)
        self.all = repo_sources(); self.srcs = srcs or self.all; self.subset = srcs is not None
        if self.subset and not all(s in self.all for s in srcs): self.srcs, self.subset = self.all, False
        self.hb = submit(['clang++'] + IRF + self.D + ['-c', V + '/harness/' + harness + '.cpp'], d + '/h_' + harness + '.bc')
        self.rb = [submit(['clang++'] + IRF + ['-fno-builtin', '-c', V + '/runtime/runtime.cpp'], d + '/runtime.bc'),
                   submit(['clang++'] + IRF + (['-DNSX_OWN_DECODER'] if self.lower_decoder() else []) + ['-c', V + '/runtime/lowered_stubs.cpp'], d + '/lowered_stubs%d.bc' % self.lower_decoder())]
        self.start_ir()
    def lower_decoder(self): return self.h == 'decoder'   # its harness stands for liblzma and libbz2
    def order(self): return sorted(self.srcs, key=lambda s: 'NapSAT' not in s)
    def start_ir(self):
        d = self.d
        self.bcs = [submit(['clang++'] + IRF + self.D + ['-c', REPO + '/' + s], d + '/' + s.replace('/', '_') + '.bc') for s in self.order() if s not in NOT_LOWERED or (self.lower_decoder() and 'decoder' in s)]
    def start_nat(self):
        d = self.d
        self.objs = [submit(['clang++'] + NF + self.D + ['-c', REPO + '/' + s], d + '/' + s.replace('/', '_') + '.o') for s in self.order()]
        self.objs += [submit(['clang++'] + NF + self.D + ['-c', V + '/harness/' + self.h + '.cpp'], d + '/h_' + self.h + '.o'),
                      submit(['clang++'] + NF + ['-c', V + '/runtime/native.cpp'], d + '/native.o')]
    def suffix(self): return '.s' if self.subset else ''
    def nat(self):
        out = self.d + '/' + self.h + self.suffix() + '.native'
        if os.path.exists(out): return out
        cmd = ['clang++', '-fsanitize=address,undefined'] + [o.result() for o in self.objs] + ['-llzma', '-lbz2']
        if self.subset:
            t = out + '.%d' % os.getpid(); r = subprocess.run(cmd + ['-o', t], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:   # the code now needs other source files too: take all of them
                self.srcs, self.subset = self.all, False; self.start_ir(); self.start_nat(); return self.nat()
            os.rename(t, out); return out
        return one(cmd, out)
    def prog(self):
        if self.subset: self.nat()
        out = self.d + '/' + self.h + self.suffix() + '.linked.bc'
        link = ['llvm-link-18', '--suppress-warnings'] if os.path.exists('/usr/bin/llvm-link-18') else ['llvm-link']
        return out if os.path.exists(out) else one(link + [b.result() for b in self.rb + [self.hb] + self.bcs], out)

def native_run(nat, files, workdir):
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=1:allocator_may_return_null=0:detect_stack_use_after_return=1', UBSAN_OPTIONS='halt_on_error=1:print_stacktrace=0', TMPDIR=workdir)
    res = {}
    chunks = [files[i::JOBS] for i in range(JOBS) if files[i::JOBS]]
    def go(c):
        r = subprocess.run([nat] + c, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env, cwd=workdir)
        return r.stdout
    with ThreadPoolExecutor(JOBS) as p:
        for o in p.map(go, chunks):
            for l in o.splitlines():
                f, _, r = l.partition(' ')
                res[f] = r
    return res

def known(prop):
    out = []
    p = V + '/known_findings.txt'
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('{'):
                k = json.loads(l)
                if k['property'] == prop: out.append(k)
    return out

def main():
    prop = sys.argv[1]; args = sys.argv[2:]
    tier = next((a for a in args if a in ('quick', 'thorough')), os.environ.get('VERIF_TIER', 'quick'))
    only = args[args.index('--run') + 1] if '--run' in args else None
    verbose = '-v' in args
    t0 = time.time(); seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    spec = specs.PROPS[prop]
    runs = [r for r in spec['runs'] if tier in r.get('tiers', ('quick', 'thorough')) and (not only or r['name'] == only)]
    feng = POOL.submit(engine)
    builds = [Build(r['harness'], r.get('defs', ()), specs.SOURCES.get(r['harness'])) for r in runs]
    for b in builds: b.start_nat()
    eng = feng.result()
    work = os.path.join(BUILD, f'run-{prop}-{tier}-{os.getpid()}'); os.makedirs(work, exist_ok=True)
    rdir = V + '/replays/' + prop; shutil.rmtree(rdir, ignore_errors=True)
    knowns = known(prop); seen_known = {}
    tot = dict(paths=0, forks=0, instructions=0, queries=0, sat=0, unsat=0, unknown=0, cache_hits=0, solver_s=0.0, asserts=0, asserts_discharged_by_solver=0, assume_pruned=0, validated=0)
    per, samples, violations, unconfirmed, problems, functions = [], [], [], [], [], set()
    for r, bld in zip(runs, builds):
        prog = bld.prog()
        params = dict(r.get('params', {})); params.update(r.get(tier, {}))
        tl = params.pop('time', 60 if tier == 'quick' else 600)
        d = work + '/' + r['name']; os.makedirs(d, exist_ok=True)
        jobs = 1 if r.get('serial') else JOBS
        cmd = [eng, prog, '--jobs', str(jobs), '--time', str(tl), '--steps', str(r.get('steps', 60000000)), '--out', d + '/out.json', '--replay', d, '--samples', str(r.get('samples', 60 if tier == 'quick' else 300))]
        if verbose: cmd.append('-v')
        if r.get('split'): cmd.append('--split')
        for k in knowns: 
            if k.get('match', {}).get('msg'): cmd += ['--ignore', k['match']['msg']]
        for k, v in params.items(): cmd += ['--param', f'{k}={v}']
        e = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if e.returncode or not os.path.exists(d + '/out.json'):
            print(f'ENGINE-ERROR run={r["name"]} rc={e.returncode}\n{e.stdout[-3000:]}'); problems.append(f'{r["name"]}: engine error'); continue
        if verbose and e.stdout: print(e.stdout)
        o = json.load(open(d + '/out.json'))
        for k in tot:
            if k in o: tot[k] += o[k]
        functions |= set(o['functions'])
        # validate the translation: the same inputs on the native sanitizer build must give the same observations
        nat = bld.nat(); sm = sorted(glob.glob(d + '/sample-*.txt')); res = native_run(nat, sm, d)
        bad = {f: x for f, x in res.items() if x != 'ok'}
        tot['validated'] += len(sm) - len(bad)
        for f, x in list(bad.items())[:5]:
            print(f'TRANSLATION-MISMATCH run={r["name"]} {os.path.basename(f)}: {x}'); problems.append(f'{r["name"]}: sample replay {x}')
            # a native failure on a path the engine accepted is itself a real failure of the code
            if x.startswith(('assert', 'crash')): violations.append((r, dict(kind='native', msg='native run fails: ' + x, where='', replay=f), x))
        for f in sm[:1]:
            samples.append({'run': r['name'], 'inputs': [l.split(None, 1)[1].strip() for l in open(f) if l.startswith('sym')][:60], 'observed': [l.split(None, 1)[1].strip() for l in open(f) if l.startswith('obs')][:20]})
        vf = [v['replay'] for v in o['violations']]
        nres = native_run(nat, vf, d) if vf else {}
        for v in o['violations']:
            x = nres.get(v['replay'], 'not replayed')
            if x.startswith(('assert', 'crash')):
                k = next((k for k in knowns if k.get('match', {}).get('msg') and k['match']['msg'] in v['msg'] and k['match'].get('run', r['name']) == r['name']), None)
                if k: seen_known[k['text']] = v
                else: violations.append((r, v, x))
            else: unconfirmed.append({'run': r['name'], 'msg': v['msg'], 'native': x}); print(f'UNCONFIRMED run={r["name"]} {v["kind"]}: {v["msg"]} where={v["where"]} native={x} replay={v["replay"]}'); keep(v['replay'], rdir, 'unconfirmed-')
        complete = o['stopped'] == 0 and o['incomplete'] == 0
        missing = [t for t in r.get('reach', []) if t not in o['reach']]
        if missing and complete and not o['violations']: problems.append(f'{r["name"]}: vacuous, not reached: {missing}')
        per.append({'run': r['name'], 'harness': f'harness/{r["harness"]}.cpp', 'bounds': r.get('bounds', ''), 'parameters': params, 'paths': o['paths'], 'queries': o['queries'], 'solver_s': round(o['solver_s'], 2), 'wall_s': round(o['wall_s'], 2), 'max_symbols': o['max_symbols'], 'all_paths_within_bounds_explored': complete, 'incomplete': o['incomplete'], 'unsupported': o['unsupported_list'], 'reached': o['reach'], 'longest_path_instructions': o['max_path_steps'], 'samples_replayed_natively': len(sm)})
        print(f'run {r["name"]}: paths={o["paths"]} queries={o["queries"]} solver={o["solver_s"]:.1f}s wall={o["wall_s"]:.1f}s complete={complete} violations={len(o["violations"])} validated={len(sm)-len(bad)}/{len(sm)}' + (f' UNSUPPORTED {o["unsupported_list"]}' if o['unsupported_list'] else '') + (f' NOT-REACHED {missing}' if missing else ''))
        if verbose: print(json.dumps(o, indent=1)[:6000])
        if violations and not verbose and not os.environ.get('NSX_ALL'): break
    for k, v in seen_known.items(): print(f'KNOWN-FINDING: property={prop} {k}')
    for r, v, x in violations:
        p = keep(v['replay'], rdir, r['harness'] + '-' + r['name'] + '-')
        print(f'  {v["kind"]}: {v["msg"]} (run {r["name"]}; {v["where"]}; native replay: {x})')
        print(f'VIOLATION property={prop} replay={p}')
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
          'coverage': {'states': tot['paths'], 'transitions': tot['forks'], 'traces_validated_against_impl': tot['validated'], 'samples': samples or [{'note': 'no path completed'}],
                       'explanation': 'states = symbolic paths executed to the end, each standing for every input that satisfies its path condition; transitions = case splits decided feasible by the solver',
                       'solver': {'name': 'z3 (C API)', 'queries': tot['queries'], 'sat': tot['sat'], 'unsat': tot['unsat'], 'unknown': tot['unknown'], 'answered_from_cache': tot['cache_hits'], 'seconds': round(tot['solver_s'], 2)},
                       'assertions_evaluated': tot['asserts'], 'assertions_discharged_by_solver': tot['asserts_discharged_by_solver'], 'instructions_executed': tot['instructions'], 'runs': per, 'functions_encoded': sorted(f for f in functions if not f.startswith(('_GLOBAL__', '__cxx_global', '_Z41__', 'nsx_'))),
                       'exhaustive_within_bounds': all(p['all_paths_within_bounds_explored'] for p in per), 'unconfirmed': unconfirmed, 'problems': problems, 'known_findings_seen': list(seen_known)},
          'assumptions': spec.get('assumptions', []) + specs.COMMON_ASSUMPTIONS, 'wall_s': round(time.time() - t0, 2), 'violations': len(violations)}
    os.makedirs(V + '/evidence', exist_ok=True)
    if not only: json.dump(ev, open(f'{V}/evidence/{prop}.json', 'w'), indent=1)
    shutil.rmtree(work, ignore_errors=True)
    if violations: sys.exit(1)
    if any('engine error' in p or 'vacuous' in p for p in problems) or not per:
        print('CHECK-ERROR ' + '; '.join(problems)); sys.exit(2)
    print(f'ok property={prop} tier={tier} paths={tot["paths"]} queries={tot["queries"]} wall={time.time()-t0:.1f}s'); sys.exit(0)

def keep(f, rdir, pre):
    os.makedirs(rdir, exist_ok=True); p = os.path.join(rdir, pre + os.path.basename(f))
    try: shutil.copy(f, p)
    except OSError: pass
    return p

if __name__ == '__main__': 
    if sys.argv[1:2] == ['--setup']: print(engine()); sys.exit(0)
    try: main()
    except BuildError as e: print(e); os._exit(2)
