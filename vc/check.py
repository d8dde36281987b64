#!/usr/bin/env python3
"""Decide one property: build the contracts against /repo's current sources,
discharge every obligation, replay what fails, write the evidence file."""
import sys, os, re, json, time, subprocess, tempfile, shutil, hashlib
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VC_REPO', '/repo')
LLVM = '/usr/lib/llvm-18/bin'
PY = shutil.which('python3-vt') or '/opt/veriftools/pyvenv/bin/python3'
INC = ['-I' + HERE, '-I' + VERIF + '/contracts', '-I' + REPO + '/sources', '-I' + REPO, '-I/opt/vp/include', '-I/usr/include/eigen3', '-DALTA_PLUGIN_DIRECTORY=""', '-w']
IRF = ['-std=gnu++11', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-DEIGEN_DONT_VECTORIZE',
       '-DEIGEN_DONT_ALIGN', '-ffp-contract=off', '-fno-math-errno', '-c', '-emit-llvm'] + INC
NATF = ['-std=gnu++11', '-O1', '-g1', '-fsanitize=address', '-fno-omit-frame-pointer', '-DVC_NATIVE', '-fPIC', '-c'] + INC
NCPU = min(8, os.cpu_count() or 8)

class BuildError(Exception): pass

def sh(cmd, timeout=600, env=None):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True, timeout=timeout, env=env, errors='replace')

def must(cmd):
    p = sh(cmd)
    if p.returncode: raise BuildError(' '.join(cmd[:3]) + ' ...: ' + p.stderr[-3000:])
    return p

class Unit:
    def __init__(self, path):
        self.path = path
        self.name = os.path.basename(path)[:-4]
        s = open(path).read()
        self.sources = []
        for l in re.findall(r'//\s*vc-sources:(.*)', s): self.sources += l.split()
        self.natsources = list(self.sources)
        for l in re.findall(r'//\s*vc-native-sources:(.*)', s): self.natsources += l.split()
        self.flags = []
        for l in re.findall(r'//\s*vc-flags:(.*)', s): self.flags += l.split()
        self.contracts = {}
        for m in re.finditer(r'CONTRACT(_BOUNDED)?\((\w+)(?:,\s*"([^"]*)")?\)', s):
            self.contracts[m.group(2)] = m.group(3)
        # contracts made by a macro: listed explicitly
        for l in re.findall(r'//\s*vc-contracts:(.*)', s):
            for c in l.split(): self.contracts.setdefault(c, None)
        self.opts = {}
        for l in re.findall(r'//\s*vc-budget:\s*(\d+)', s): self.opts['budget'] = int(l)

def units():
    d = VERIF + '/contracts'
    return [Unit(d + '/' + f) for f in sorted(os.listdir(d)) if f.endswith('.cpp')]

def srcpath(s): return s if s.startswith('/') else REPO + '/' + s

class Build:
    def __init__(self, tmp): self.tmp = tmp; self.bc = {}; self.obj = {}
    def one(self, kind, src, flags, tag):
        out = '%s/%s_%s.%s' % (self.tmp, tag, hashlib.md5((src + ' '.join(flags)).encode()).hexdigest()[:10], 'bc' if kind == 'ir' else 'o')
        if kind == 'ir': must([LLVM + '/clang++'] + IRF + flags + [src, '-o', out])
        else: must(['g++'] + NATF + flags + [src, '-o', out])
        return out
    def start(self, kind, jobs, ex):
        tab = self.bc if kind == 'ir' else self.obj
        for src, fl in jobs:
            k = (src, tuple(fl))
            if k not in tab: tab[k] = ex.submit(self.one, kind, src, list(fl), os.path.basename(src).replace('.', '_'))
    def finish(self, kind):
        tab = self.bc if kind == 'ir' else self.obj
        for k, f in list(tab.items()):
            if not hasattr(f, 'result'): continue
            try: tab[k] = f.result()
            except BuildError as e: tab[k] = e
    def compile(self, kind, jobs, ex): self.start(kind, jobs, ex); self.finish(kind)
    def got(self, tab, k):
        if isinstance(tab[k], BuildError): raise tab[k]
        return tab[k]
    def link_ir(self, u):
        l = '%s/%s' % (self.tmp, u.name)
        bcs = [self.got(self.bc, k) for k in [(u.path, tuple(u.flags)), (VERIF + '/stubs/rt.cpp', ())] + [(srcpath(s), tuple(u.flags)) for s in u.sources]]
        must([LLVM + '/llvm-link'] + bcs + ['-o', l + '.l.bc'])
        must([LLVM + '/opt', '-passes=elim-avail-extern,globaldce', l + '.l.bc', '-o', l + '.2.bc'])
        nm = must([LLVM + '/llvm-nm', l + '.2.bc']).stdout
        syms = sorted(set(re.findall(r'vc_contract_\w+', nm)))
        must([LLVM + '/opt', '-passes=internalize,globaldce,default<O1>,globaldce', '-internalize-public-api-list=' + ','.join(syms), '-vectorize-loops=false',
              '-vectorize-slp=false', '-unroll-threshold=0', '-S', l + '.2.bc', '-o', l + '.ll'])
        for x in (l + '.l.bc', l + '.2.bc'): os.unlink(x)
        return l + '.ll', syms
    def link_native(self, u):
        out = '%s/%s.native' % (self.tmp, u.name)
        objs = [self.got(self.obj, k) for k in [(u.path, tuple(u.flags)), (HERE + '/vc_native.cpp', ())] + [(srcpath(s), tuple(u.flags)) for s in u.natsources]]
        must(['g++', '-fsanitize=address', '-Wl,--wrap=exit'] + objs + ['-o', out, '-ldl', '-pthread', '-lm', '-lz'])
        return out

NENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:max_malloc_fill_size=100000000:malloc_fill_byte=255:handle_segv=0:handle_abort=0:allocator_may_return_null=1:detect_stack_use_after_return=0')

def native(exe, contract, args, timeout, cwd):
    try: p = sh([exe, contract] + args, timeout=timeout, env=NENV) if not cwd else subprocess.run([exe, contract] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True, timeout=timeout, env=NENV, errors='replace', cwd=cwd)
    except subprocess.TimeoutExpired: return None, 'timeout'
    if 'VCFAIL' in p.stdout: return False, p.stdout
    if 'VCPASS' in p.stdout: return True, p.stdout
    return None, 'exit %s: %s %s' % (p.returncode, p.stdout[-500:], p.stderr[-500:])

def load_known():
    out = []
    p = VERIF + '/known_findings.txt'
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) contract=(\S+) obligation="([^"]*)" (.*)', l.strip())
            if m: out.append(dict(property=m.group(1), contract=m.group(2), obligation=m.group(3), what=m.group(4)))
    return out

def demangle(names):
    names = [n.lstrip('@').strip('"') for n in names]
    if not names: return []
    p = subprocess.run([LLVM + '/llvm-cxxfilt'], input='\n'.join(names), stdout=subprocess.PIPE, universal_newlines=True)
    return p.stdout.split('\n')

def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if len(sys.argv) > 2 and sys.argv[2] in ('quick', 'thorough'): tier = sys.argv[2]
    only = sys.argv[3:] if len(sys.argv) > 3 else None
    t0 = time.time()
    todo = []
    for u in units():
        cs = {c: b for c, b in u.contracts.items() if c.startswith(prop + '_') and (not only or c in only)}
        if cs: todo.append((u, cs))
    if not todo: print('no contract for', prop); return 2
    tmp = tempfile.mkdtemp(prefix='vc_%s_' % prop, dir=os.environ.get('VC_TMP', '/tmp'))
    try: return decide(prop, tier, seed, todo, tmp, t0)
    finally: shutil.rmtree(tmp, ignore_errors=True)

def decide(prop, tier, seed, todo, tmp, t0):
    B = Build(tmp)
    ex = ThreadPoolExecutor(NCPU)
    jobs = [(VERIF + '/stubs/rt.cpp', ())]
    for u, cs in todo:
        jobs.append((u.path, tuple(u.flags)))
        jobs += [(srcpath(s), tuple(u.flags)) for s in u.sources]
    B.compile('ir', jobs, ex)
    def link(uc):
        try: return B.link_ir(uc[0])
        except BuildError as e: return e
    linked = list(ex.map(link, todo))
    # a contract that no longer builds against the sources decides nothing; the others still do
    unbuilt = [(u, cs, l) for (u, cs), l in zip(todo, linked) if isinstance(l, BuildError)]
    for u, cs, l in unbuilt: print('check %s: cannot build the contracts of %s against /repo (%s decide nothing): %s' % (prop, u.name, ' '.join(cs), l))
    if len(unbuilt) == len(todo): return 2
    todo, linked = zip(*[(uc, l) for uc, l in zip(todo, linked) if not isinstance(l, BuildError)])
    tb = time.time() - t0
    # the same contracts as native programs: replay of witnesses, and runs on real doubles and larger sizes
    jobs = [(HERE + '/vc_native.cpp', ())]
    for u, cs in todo:
        jobs.append((u.path, tuple(u.flags)))
        jobs += [(srcpath(s), tuple(u.flags)) for s in u.natsources]
    B.start('nat', jobs, ex)
    budget = float(os.environ.get('VC_BUDGET', 150 if tier == 'quick' else 500))
    def verify(job):
        u, c, ll = job
        out = '%s/%s.json' % (tmp, c)
        try:
            p = sh([PY, HERE + '/worker.py', ll, c, '--out', out, '--seed', str(seed), '--budget', str(u.opts.get('budget', budget)), '--tier', tier], timeout=u.opts.get('budget', budget) + 60)
            if os.path.exists(out): return json.load(open(out))
            return dict(contract=c, error='worker died: ' + p.stderr[-600:], obligations=[], covers={}, bounded=[], assumptions=[], called=[], stats={}, wall=0)
        except subprocess.TimeoutExpired:
            return dict(contract=c, error='timeout', obligations=[], covers={}, bounded=[], assumptions=[], called=[], stats={}, wall=budget)
    vjobs = [(u, c, ll) for (u, cs), (ll, syms) in zip(todo, linked) for c in cs if 'vc_contract_' + c in syms]
    reports = list(ex.map(verify, vjobs))
    known = [k for k in load_known() if k['property'] == prop]
    # classify
    res = []
    for (u, c, ll), R in zip(vjobs, reports):
        stated = u.contracts[c]
        failed = [o for o in R['obligations'] if o['status'] == 'failed']
        und = [o for o in R['obligations'] if o['status'] == 'undecided']
        ndis = sum(o['status'] == 'discharged' for o in R['obligations'])
        vac = [k for k, v in R['covers'].items() if not v]
        ncontract = sum(1 for o in R['obligations'] if o['kind'] == 'contract')
        if failed: cls = 'failed'
        elif R['error']: cls = 'unsupported'
        elif und: cls = 'undecided'
        elif vac or not ncontract: cls = 'vacuous'
        elif R.get('bounded') or stated: cls = 'bounded'
        else: cls = 'proved'
        r = dict(unit=u, contract=c, cls=cls, R=R, failed=failed, und=und, ndis=ndis, stated=stated, vac=vac, native=None)
        res.append(r)
    natexe = {}
    B.finish('nat')
    def natlink(u):
        try: return B.link_native(u)
        except BuildError as e: print('check %s: native build failed: %s' % (prop, e)); return None
    for (u, cs), exe in zip(todo, ex.map(natlink, [u for u, cs in todo])): natexe[u.name] = exe
    os.makedirs(VERIF + '/evidence/replay', exist_ok=True)
    def confirm(r):
        exe = natexe.get(r['unit'].name)
        if not exe: return
        cwd = tempfile.mkdtemp(prefix='run_', dir=tmp)
        cand = [o for o in r['failed'] + r['und'] if o.get('witness')]
        for i, o in enumerate(cand[:3]):
            f = '%s/w%d.txt' % (cwd, i)
            with open(f, 'w') as h:
                for k, v in o['witness'].items(): h.write('INPUT %s %.17g\n' % (k, v))
            ok, txt = native(exe, r['contract'], ['replay', f], 60, cwd)
            if ok is False: r['native'] = ('replayed', txt, o); return
        secs, its, tolx = ('20', '100000', '1') if tier == 'quick' else ('120', '2000000', '1')
        # decided by the verifier: real doubles (NaN, gross errors, memory) and sizes beyond its bound
        if r['cls'] == 'proved': secs, tolx = '2' if tier == 'quick' else '20', '1000'
        elif r['cls'] == 'bounded' and not r['R'].get('bounded'): secs, tolx = '4' if tier == 'quick' else '40', '10'
        ok, txt = native(exe, r['contract'], ['random', str(seed), its, secs, tolx], 200, cwd)
        if ok is False: r['native'] = ('search', txt, (r['failed'] + r['und'] + [None])[0])
        elif ok is True: r['native'] = ('passed', txt.strip(), None)
        else: r['native'] = ('none', txt, None)
    list(ex.map(confirm, res))
    # verdict
    viol = []; lines = []; broken = []
    for r in res:
        nat = r['native'][0] if r['native'] else None
        bad = nat in ('replayed', 'search') or r['cls'] == 'failed'
        if bad:
            ks = [k for k in known if k['contract'] == r['contract']]
            names = set(k['obligation'] for k in ks)
            hit = ks if all(o['name'] in names for o in r['failed']) else []
            if hit and (r['failed'] or k_match(hit, r)):
                lines.append('KNOWN-FINDING: property=%s %s' % (prop, hit[0]['what'])); r['known'] = True; continue
            viol.append(r)
        elif r['cls'] == 'vacuous': broken.append('%s: vacuous contract (%s)' % (r['contract'], r['vac']))
        elif r['cls'] in ('undecided', 'unsupported') and nat != 'passed':
            broken.append('%s: %s and no bounded run (%s; %s)' % (r['contract'], r['cls'], r['R']['error'], r['native']))
    for r in viol:
        path = '%s/evidence/replay/%s.txt' % (VERIF, r['contract'])
        nat = r['native'] if r['native'] and r['native'][0] in ('replayed', 'search') else None
        with open(path, 'w') as h:
            h.write('property %s\ncontract %s (in contracts/%s.cpp)\n' % (prop, r['contract'], r['unit'].name))
            for o in r['failed'] + r['und']: h.write('obligation "%s" [%s] in %s: %s by %s\n' % (o['name'], o['kind'], o['where'], o['status'], o['backend']))
            if nat: h.write('native run on the real code (%s):\n%s\n' % (nat[0], nat[1]))
            else:
                h.write('verifier output: no failing input found natively\n')
                for o in r['failed'][:1]:
                    h.write(json.dumps(o, indent=1) + '\n')
        r['path'] = path
    # evidence
    by = {}
    st = dict(z3_s=0.0, cvc5_s=0.0, z3_calls=0, cvc5_calls=0)
    called = set(); assum = set(); tot = 0; dis = 0
    for r in res:
        for o in r['R']['obligations']:
            if r['cls'] in ('proved',):
                tot += 1
                if o['status'] == 'discharged': dis += 1; by[o['backend']] = by.get(o['backend'], 0) + 1
            elif o['status'] != 'discharged': tot += 1
        for k in st: st[k] += r['R'].get('stats', {}).get(k, 0)
        called |= set(r['R'].get('called', [])); assum |= set(r['R'].get('assumptions', []))
    fns = sorted(set(re.sub(r'\s*\[clone.*', '', n) for n in demangle(sorted(called)) if n and not re.match(r'^(std::|Eigen::|void (std|Eigen)::|bool (std|Eigen)::|__gnu|vc_contract|operator|_GLOBAL|__cxx)', n) and 'Eigen::internal' not in n and not n.startswith('std')))
    npro = [r['contract'] for r in res if r['cls'] == 'proved']
    bnd = [dict(contract=r['contract'], bound=r['stated'] or '; '.join(r['R'].get('bounded') or []) or ('%s (%s); native random runs of the same contract instead: %s' % (r['cls'], r['R']['error'] or 'solver', r['native'][1] if r['native'] else ''))[:400],
                obligations_within_bound=r['ndis']) for r in res if r['cls'] not in ('proved', 'failed')]
    ev = dict(property=prop, tier=tier if tier in ('quick', 'thorough') else 'quick', seed=seed, level='proof' if npro else 'other', wall_s=round(time.time() - t0, 2),
              coverage=dict(explanation='contract verification: %d contracts proved for all inputs, %d decided within the bound stated' % (len(npro), len(bnd)), obligations=tot, discharged=dis,
                            checker_cmd='VERIF_TIER=%s python3 /verif/vc/check.py %s' % (tier, prop),
                            trusted_base=sorted(set(TRUSTED) | assum),
                            contracts_proved=npro, not_built=[c for u, cs, l in unbuilt for c in cs], bounded_not_counted_as_proved=bnd,
                            failed=[r['contract'] for r in viol], known_findings=[r['contract'] for r in res if r.get('known')],
                            by_back_end=by, solver_time_s={k: round(v, 2) for k, v in st.items()},
                            functions_under_contract=fns, build_s=round(tb, 1),
                            per_contract=[dict(contract=r['contract'], verdict=r['cls'], obligations=len(r['R']['obligations']), paths=r['R'].get('paths'), loops_summarised=r['R'].get('loop_summaries'), wall_s=r['R'].get('wall'), error=r['R']['error']) for r in res]))
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    json.dump(ev, open('%s/evidence/%s.json' % (VERIF, prop), 'w'), indent=1)
    for l in sorted(set(lines)): print(l)
    print('%s: %d contracts proved (%d obligations: %s), %d bounded, %d failed, %.1fs' % (prop, len(npro), dis, by, len(bnd), len(viol), time.time() - t0))
    if os.environ.get('VC_V'):
        for r in res: print('   %-10s %-40s ob=%d paths=%s %.1fs %s %s' % (r['cls'], r['contract'], len(r['R']['obligations']), r['R'].get('paths'), r['R'].get('wall', 0), r['R']['error'] or '', (r['native'] or [''])[0]))
    for r in res:
        if r['cls'] in ('undecided', 'unsupported'):
            print('  note: %s %s: %s %s' % (r['contract'], r['cls'], r['R']['error'] or '', [(o['name'], o['where']) for o in r['und'][:3]]))
    if viol:
        for r in viol:
            ob = (r['failed'] + r['und'] + [None])[0]
            print('  %s: obligation "%s" fails' % (r['contract'], ob['name'] if ob else 'native run'))
            nat = r['native'] and r['native'][0] in ('replayed', 'search')
            if nat: print('    ' + r['native'][1].split('\n')[0])
            print('VIOLATION property=%s replay=%s%s' % (prop, r['path'], '' if nat else ' no-failing-input-found'))
        return 1
    if broken:
        for b in broken: print('broken:', b)
        if len(broken) == len(res): return 2
    return 0

def k_match(hit, r):
    return any(k['obligation'] in (r['native'][1] if r['native'] else '') for k in hit)

TRUSTED = ['the contract verifier itself (/verif/vc: LLVM IR front end, symbolic executor, ring normaliser)', 'clang 18 front end and the -O1 scalar optimisations of opt',
           'z3 / cvc5', 'doubles are treated as mathematical reals (no rounding, no NaN or infinity except the literals)',
           'libm functions are the mathematical functions; equalities hold where both sides are defined',
           'libstdc++ red-black-tree helpers replaced by /verif/stubs/rt.cpp; console output ignored; malloc never fails']
if __name__ == '__main__':
    sys.exit(main())
