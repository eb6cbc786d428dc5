"""Bounded symbolic checking of /repo's real sources with CBMC, plus native replay.

Per job: every source in Makefile.am's SOURCE_FILES is compiled from /repo's working
tree with goto-cc, linked with a harness, executed symbolically by CBMC and decided by
its SAT back end.  A counterexample is replayed on the same sources built with
gcc + sanitizers, and only a reproduced one is a violation."""
import concurrent.futures as cf
import json, os, re, resource, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
NCPU = 8
UB_ONLY = re.compile(r'^(pointer relation|pointer arithmetic|same object violation|no body for callee)')
CC_STD = ['-std=gnu2x']

class Fail(Exception):
    pass

def sh(cmd, timeout=None, mem_gb=None, env=None, cwd=None, track=None):
    def pre():
        os.setsid()
        if mem_gb:
            resource.setrlimit(resource.RLIMIT_AS, (int(mem_gb * 2**30),) * 2)
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=pre, env=env, cwd=cwd)
    if track is not None:
        track.add(p.pid)
    try:
        out, err = p.communicate(timeout=timeout)
        return p.returncode, out.decode('utf8', 'replace'), err.decode('utf8', 'replace'), False
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
        return -9, out.decode('utf8', 'replace'), err.decode('utf8', 'replace'), True
    finally:
        if track is not None:
            track.discard(p.pid)

def repo_sources():
    """the library's translation units, as the build defines them"""
    txt = open(os.path.join(REPO, 'Makefile.am')).read().replace('\\\n', ' ')
    m = re.search(r'^SOURCE_FILES\s*=\s*(.*)$', txt, re.M)
    src = [s for s in (m.group(1).split() if m else []) if s.endswith('.c')]
    if len(src) < 10:
        raise Fail('cannot read SOURCE_FILES from Makefile.am')
    return src

class Ctx:
    def __init__(self, prop, tier, deadline):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.deadline = self.t0 + deadline
        base = os.environ.get('TMPDIR', '/tmp')
        self.dir = tempfile.mkdtemp(prefix='vf-%s-' % prop, dir=base)
        self.lock = threading.Lock()
        self.objs = {}
        self.running = set()
        self.stopped = False
    def left(self):
        return self.deadline - time.time()
    def stop(self):
        """a violation is established: give up the remaining queries"""
        self.stopped = True
        for pid in list(self.running):
            try:
                os.killpg(pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass
    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def obj(self, kind, src, flags=()):
        """compile one repo source once per (kind, flags); kind: 'gb' or 'nat'"""
        key = (kind, src, tuple(flags))
        with self.lock:
            fut = self.objs.get(key)
            if fut is None:
                fut = self.objs[key] = cf.Future()
                mine = True
            else:
                mine = False
        if not mine:
            return fut.result()
        try:
            out = os.path.join(self.dir, '%s-%d-%s.o' % (kind, abs(hash(key)) % 10**9, os.path.basename(src)))
            path = os.path.join(REPO, src)
            cc = cc_cmd(kind)
            rc, o, e, to = sh(cc + list(flags) + ['-I' + os.path.join(REPO, 'src'), '-c', path, '-o', out], 300)
            if rc != 0:
                raise Fail('%s does not compile (%s): %s' % (src, kind, (e + o)[-800:]))
            fut.set_result(out)
        except Exception as ex:
            fut.set_exception(ex)
        return fut.result()

def cc_cmd(kind):
    if kind == 'gb':
        return ['goto-cc'] + CC_STD
    return ['gcc'] + CC_STD + ['-g', '-O1', '-w', '-U_FORTIFY_SOURCE', '-fno-omit-frame-pointer',
            '-fsanitize=address,undefined', '-fno-sanitize=alignment,nonnull-attribute,pointer-overflow',
            '-fno-sanitize-recover=all', '-fno-builtin']

def inc_flags():
    return ['-I' + os.path.join(REPO, 'src'), '-I' + os.path.join(VERIF, 'env'), '-I' + os.path.join(VERIF, 'harness')]

def defs_flags(job):
    return ['-D%s=%s' % (k, v) if v is not None else '-D' + k for k, v in job.get('defs', {}).items()]

def job_sources(job):
    src = repo_sources()
    return [s for s in src if s not in job.get('exclude', []) and (not job.get('only') or s in job['only'])]

def build_gb(ctx, job):
    sf = job.get('srcflags', [])
    objs = [ctx.obj('gb', s, sf) for s in job_sources(job)]
    out = os.path.join(ctx.dir, job['name'] + '.gb')
    rc, o, e, to = sh(cc_cmd('gb') + ['-DVF_SYM'] + job.get('symflags', []) + inc_flags() + defs_flags(job) + job.get('hflags', []) +
                      [os.path.join(VERIF, 'harness', job['src']), os.path.join(VERIF, 'env', 'main.c')] + objs + ['-o', out], 300)
    if rc != 0:
        raise Fail('harness %s does not build: %s' % (job['name'], (e + o)[-1500:]))
    return out

STUB_RE = re.compile(r'VF_STUB\((\w+)\)')

def stubs_of(path, seen=None):
    seen = seen if seen is not None else set()
    if path in seen or not os.path.exists(path):
        return set()
    seen.add(path)
    t = open(path).read()
    r = set(STUB_RE.findall(t))
    for inc in re.findall(r'#include "([^"]+)"', t):
        for d in ('env', 'harness'):
            r |= stubs_of(os.path.join(VERIF, d, inc), seen)
    return r - {'f'}

def build_native(ctx, job):
    key = job['name'] + '.native'
    out = os.path.join(ctx.dir, key)
    nf = job.get('natflags', [])
    objs = [ctx.obj('nat', s, nf) for s in job_sources(job)]
    h = os.path.join(VERIF, 'harness', job['src'])
    wraps = ['-Wl,--wrap=' + s for s in sorted(stubs_of(h))]
    rc, o, e, to = sh(cc_cmd('nat') + nf + inc_flags() + defs_flags(job) + job.get('hflags', []) + job.get('hnatflags', []) +
                      [h, os.path.join(VERIF, 'env', 'native.c')] + objs + wraps +
                      ['-o', out, '-lssl', '-lcrypto', '-lpthread'], 300)
    if rc != 0:
        raise Fail('native harness %s does not build: %s' % (job['name'], (e + o)[-1500:]))
    return out

def run_native(binary, vec, timeout=20, fills=(0, 255, 32)):
    """returns list of outcome dicts, one per heap fill pattern"""
    res = []
    for fill in fills:
        env = dict(os.environ)
        env['ASAN_OPTIONS'] = ('detect_leaks=1:exitcode=98:max_malloc_fill_size=1000000:malloc_fill_byte=%d:'
                               'max_free_fill_size=1000000:free_fill_byte=%d:detect_stack_use_after_return=1:'
                               'allocator_may_return_null=1' % (fill, fill))
        env['LSAN_OPTIONS'] = 'exitcode=97'
        env['UBSAN_OPTIONS'] = 'halt_on_error=1:exitcode=96:print_stacktrace=1'
        rc, o, e, to = sh([binary, vec], timeout, None, env)
        out = e + o
        kind = 'pass'
        if to: kind = 'hang'
        elif rc == 77: kind = 'assume'
        elif rc == 99: kind = 'assert'
        elif rc in (96, 97, 98): kind = 'sanitizer'
        elif rc != 0: kind = 'crash'
        res.append({'fill': fill, 'rc': rc, 'kind': kind, 'out': out,
                    'known': re.findall(r'VF-KNOWN-FAILED (.*)', out),
                    'covers': re.findall(r'VF-COVER (.*)', out)})
    return res

def trace_inputs(trace):
    vec = []
    for st in trace:
        if st.get('stepType') == 'input' and st.get('inputID') == 'vf' and not st.get('hidden_'):
            v = st.get('values', [{}])[0]
            b = v.get('binary')
            if b is not None and set(b) <= set('01') and b:
                vec.append(int(b, 2))
            else:
                d = str(v.get('data', '0'))
                vec.append(1 if d.lower() == 'true' else 0 if d.lower() == 'false' else int(re.sub(r'[^0-9-]', '', d) or 0) % 2**64)
    return vec

def cbmc_cmd(job, gb, unwind):
    cmd = ['cbmc', gb, '--json-ui', '--trace', '--unwind', str(unwind), '--unwinding-assertions',
           '--no-malloc-may-fail', '--object-bits', '12', '--drop-unused-functions', '--verbosity', '8']
    if job.get('solver') in ('z3', 'cvc5'):
        cmd += ['--' + job['solver']]
    elif job.get('solver', 'minisat') != 'minisat':
        cmd += ['--sat-solver', job['solver']]
    cmd += {True: [], False: ['--no-standard-checks'], 'ptr': ['--no-standard-checks', '--pointer-check', '--bounds-check']}[job.get('checks', True)]
    cmd += job.get('flags', [])
    return cmd

def harness_loops(gb):
    """loops of the harness and environment models: their bounds are constants of ours"""
    rc, out, err, to = sh(['goto-instrument', '--show-loops', '--json-ui', gb], 120)
    ids = []
    try:
        for e in json.loads(out):
            for l in e.get('loops', []):
                if l.get('sourceLocation', {}).get('file', '').startswith(VERIF):
                    ids.append(l['name'])
    except Exception:
        raise Fail('cannot list loops: %s' % (err + out)[-300:])
    return ids

def recursive_functions(gb):
    """functions on a call-graph cycle"""
    rc, out, err, to = sh(['goto-instrument', '--call-graph', gb], 120)
    g = {}
    for a, b in re.findall(r'^(\S+) -> (\S+)$', out, re.M):
        g.setdefault(a, set()).add(b)
    rec = set()
    for f in g:
        seen, todo = set(), list(g[f])
        while todo:
            x = todo.pop()
            if x not in seen:
                seen.add(x)
                todo += g.get(x, ())
        if f in seen:
            rec.add(f)
    return sorted(rec)

def run_cbmc(ctx, job, gb, unwind):
    cmd = cbmc_cmd(job, gb, unwind)
    us = ['%s:%d' % (l, job.get('hunwind', 140)) for l in harness_loops(gb)]
    if 'recursion' in job:
        us += ['%s:%d' % (f, job['recursion'] * unwind // job['unwind']) for f in recursive_functions(gb)]
    us += ['%s:%d' % (k, v) for k, v in job.get('unwindset', {}).items()]
    if us:
        cmd += ['--unwindset', ','.join(us)]
    t = time.time()
    tmo = max(5, min(float(os.environ.get('VF_TMO') or job.get('timeout', 400)), ctx.left() - 15))
    rc, out, err, to = sh(cmd, tmo, job.get('mem_gb', 14), track=ctx.running)
    r = {'cmd': ' '.join(['cbmc'] + cmd[1:]).replace(ctx.dir, '$T'), 'wall_s': round(time.time() - t, 2), 'timeout': to, 'rc': rc,
         'props': [], 'solver_s': 0.0, 'vars': 0, 'clauses': 0, 'queries': 0, 'symex_s': 0.0, 'steps': 0, 'functions': [], 'nobody': []}
    if to:
        r['error'] = 'timeout after %ds' % tmo
        return r
    try:
        js = json.loads(out)
    except Exception:
        r['error'] = 'cbmc rc=%s: %s' % (rc, (err + out)[-600:])
        return r
    for e in js:
        if 'result' in e:
            r['props'] = e['result']
        m = e.get('messageText', '')
        if not m:
            continue
        x = re.match(r'Runtime Solver: ([0-9.e+-]+)s', m)
        if x: r['solver_s'] += float(x.group(1)); r['queries'] += 1
        x = re.match(r'Runtime Symex: ([0-9.e+-]+)s', m)
        if x: r['symex_s'] += float(x.group(1))
        x = re.match(r'(\d+) variables, (\d+) clauses', m)
        if x:
            r['vars'] = max(r['vars'], int(x.group(1))); r['clauses'] = max(r['clauses'], int(x.group(2)))
        x = re.match(r'size of program expression: (\d+) steps', m)
        if x: r['steps'] = int(x.group(1))
        x = re.match(r'no body for (?:function|callee) (\S+)', m)
        if x: r['nobody'].append(x.group(1))
        if e.get('messageType') == 'ERROR':
            r['error'] = m[-600:]
    if not r['props'] and 'error' not in r:
        r['error'] = 'no result (rc %s) %s' % (rc, err[-300:])
    if r['props']:
        r.pop('error', None)
    r['functions'] = sorted({p['sourceLocation']['function'] for p in r['props']
                             if p.get('sourceLocation', {}).get('file', '').startswith(REPO)
                             and 'function' in p.get('sourceLocation', {})})
    return r

def classify(props):
    fails, covers_hit, covers_miss, ub, unwind, known, ok = [], [], [], [], [], [], 0
    for p in props:
        d, st = p.get('description', ''), p.get('status')
        if d.startswith('COVER: '):
            (covers_hit if st == 'FAILURE' else covers_miss).append(p)
        elif d.startswith('KNOWN: '):
            if st == 'FAILURE': known.append(p)
            else: ok += 1
        elif st == 'FAILURE':
            if 'unwinding assertion' in d or 'recursion unwinding' in d: unwind.append(p)
            elif UB_ONLY.match(d): ub.append(p)
            else: fails.append(p)
        elif st == 'SUCCESS':
            ok += 1
    return fails, covers_hit, covers_miss, ub, unwind, known, ok

def loc(p):
    s = p.get('sourceLocation', {})
    f = s.get('file', '?')
    for b in (REPO, VERIF):
        f = f.replace(b + '/', '')
    return '%s:%s %s' % (f, s.get('line', '?'), s.get('function', ''))

def save_replay(ctx, job, tag, vec, binary, outcome, prop):
    d = os.path.join(VERIF, 'replays', ctx.prop, job['name'] + '-' + tag)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(os.path.join(d, 'inputs.txt'), 'w').write('\n'.join(map(str, vec)) + '\n')
    open(os.path.join(d, 'report.txt'), 'w').write(
        'property: %s\njob: %s\nfailed assertion: %s\nat: %s\nnative outcome: %s (rc %s, heap fill byte %s)\n\n%s\n' % (
            ctx.prop, job['name'], prop.get('description'), loc(prop), outcome['kind'], outcome['rc'], outcome['fill'], outcome['out'][-6000:]))
    json.dump({k: v for k, v in job.items()}, open(os.path.join(d, 'job.json'), 'w'), indent=1, default=str)
    shutil.copy(binary, os.path.join(d, 'replay.bin'))
    open(os.path.join(d, 'run.sh'), 'w').write(
        '#!/bin/sh\n# replays the counterexample on the real code (as built when it was found)\ncd "$(dirname "$0")"\n'
        'ASAN_OPTIONS=exitcode=98:max_malloc_fill_size=1000000:malloc_fill_byte=%d:max_free_fill_size=1000000:free_fill_byte=%d:detect_stack_use_after_return=1 '
        'UBSAN_OPTIONS=halt_on_error=1 ./replay.bin inputs.txt\n' % (outcome['fill'], outcome['fill']))
    os.chmod(os.path.join(d, 'run.sh'), 0o755)
    return d

def run_job(ctx, job):
    """returns a result dict: status in ok | violation | inconclusive"""
    res = {'name': job['name'], 'status': 'ok', 'notes': [], 'known': [], 'runs': 0, 'solver_s': 0.0, 'symex_s': 0.0, 'queries': 0,
           'obligations': 0, 'discharged': 0, 'covers': [], 'functions': [], 'validated': 0, 'vars': 0, 'clauses': 0, 'steps': 0}
    t = time.time()
    if ctx.stopped:
        res.update(status='skipped', wall_s=0)
        return res
    try:
        gb = build_gb(ctx, job)
        unwind = job['unwind']
        native = None
        for attempt in range(3):
            r = run_cbmc(ctx, job, gb, unwind)
            res['runs'] += 1
            for k in ('solver_s', 'symex_s', 'queries'):
                res[k] += r[k]
            for k in ('vars', 'clauses', 'steps'):
                res[k] = max(res[k], r[k])
            res['cmd'] = r['cmd']
            if 'error' in r:
                res['status'] = 'skipped' if ctx.stopped else 'inconclusive'
                res['notes'].append(r['error'])
                return res
            fails, hit, miss, ub, unw, known, ok = classify(r['props'])
            res['functions'] = r['functions']
            res['nobody'] = sorted(set(r['nobody']))
            res['obligations'] = ok + len(fails) + len(unw) + len(known)
            res['discharged'] = ok
            res['unwind'] = unwind
            if fails or unw or known:
                native = native or build_native(ctx, job)
            n_assume = 0
            tried = set()
            for i, p in enumerate(fails + unw + known):
                vec = trace_inputs(p.get('trace', []))
                key = (tuple(vec), p in known)
                if key in tried or len(tried) > 24 or ctx.left() < 8:
                    continue
                tried.add(key)
                vf = os.path.join(ctx.dir, '%s-%d-%d.vec' % (job['name'], attempt, i))
                open(vf, 'w').write('\n'.join(map(str, vec)) + '\n')
                outs = run_native(native, vf)
                if p in known:
                    nm = p['description'][7:]
                    if any(nm in o['known'] for o in outs):
                        res['known'].append({'name': nm, 'loc': loc(p), 'inputs': vec[:64]})
                        continue
                    # the recorded finding did not reproduce: say so, do not suppress anything
                    res['notes'].append('known finding %s not reproduced natively' % nm)
                bad = next((o for o in outs if o['kind'] in ('assert', 'sanitizer', 'crash')), None)
                if bad is None and any(o['kind'] == 'hang' for o in outs):
                    bad = next(o for o in outs if o['kind'] == 'hang')
                if bad:
                    res['status'] = 'violation'
                    res['replay'] = save_replay(ctx, job, 'cex', vec, native, bad, p)
                    res['notes'].append('%s at %s; native replay: %s' % (p['description'], loc(p), bad['kind']))
                    return res
                res['notes'].append('not reproduced: %s at %s (native: %s)' % (p['description'], loc(p), ','.join(o['kind'] for o in outs)))
            if fails:
                res['status'] = 'inconclusive'
                return res
            if unw:
                unwind *= 2
                if attempt == 2:
                    res['status'] = 'inconclusive'
                    res['notes'].append('unwinding bound %d too small for %s' % (unwind // 2, loc(unw[0])))
                    return res
                res['notes'].append('raising unwind to %d for %s' % (unwind, loc(unw[0])))
                continue
            for p in ub:
                res['notes'].append('UB-only (not a violation, triage by reading): %s at %s' % (p['description'], loc(p)))
            op = str(job.get('defs', {}).get('OP'))
            miss = [p for p in miss if '#' not in p['description'] or p['description'][7:].split('#')[0] in op.split(',') + job.get('tags', [])]
            if miss:
                res['status'] = 'inconclusive'
                res['notes'].append('vacuous: unreachable witness %s' % ', '.join(p['description'] for p in miss))
                return res
            if job.get('covers', 1) and not hit:
                res['status'] = 'inconclusive'
                res['notes'].append('harness has no reachability witness')
                return res
            res['covers'] = [p['description'][7:] for p in hit]
            # cross-check the encoding: each witness must behave natively as the solver says
            if hit and not job.get('no_validate'):
                native = native or build_native(ctx, job)
                for i, p in enumerate(hit[:job.get('validate_max', 6)]):
                    if ctx.left() < 20: break
                    vec = trace_inputs(p.get('trace', []))
                    vf = os.path.join(ctx.dir, '%s-c%d.vec' % (job['name'], i))
                    open(vf, 'w').write('\n'.join(map(str, vec)) + '\n')
                    o = run_native(native, vf, fills=(0,))[0]
                    if o['kind'] in ('assert', 'sanitizer', 'crash', 'hang') :
                        # the real code fails where the encoding passes: a violation found by replay
                        res['status'] = 'violation'
                        res['replay'] = save_replay(ctx, job, 'witness', vec, native, o, p)
                        res['notes'].append('witness %s fails on the real build: %s' % (p['description'], o['kind']))
                        return res
                    if p['description'][7:] in o['covers']:
                        res['validated'] += 1
                        res.setdefault('sample', {'job': job['name'], 'witness': p['description'][7:], 'inputs': vec[:48]})
                    else:
                        res['notes'].append('witness %s not confirmed natively (%s)' % (p['description'], o['kind']))
                        res['unconfirmed'] = res.get('unconfirmed', 0) + 1
            return res
    except Fail as ex:
        res['status'] = 'inconclusive'
        res['notes'].append(str(ex))
    finally:
        res['wall_s'] = round(time.time() - t, 2)
    return res

def load_known():
    path = os.path.join(VERIF, 'known_findings.jsonl')
    out = []
    if os.path.exists(path):
        for l in open(path):
            l = l.strip()
            if l and l.startswith('{'):
                out.append(json.loads(l))
    return out

def run_property(prop, spec, jobs, tier, verbose=True):
    deadline = 840 if tier == 'quick' else 6 * 3600
    ctx = Ctx(prop, tier, deadline)
    if not os.environ.get('VF_KEEP'):
        shutil.rmtree(os.path.join(VERIF, 'replays', prop), ignore_errors=True)
    results = []
    try:
        try:
            # compile the shared objects first, in parallel
            pre = {(s, tuple(j.get('srcflags', []))) for j in jobs for s in job_sources(j)}
            with cf.ThreadPoolExecutor(NCPU) as ex:
                list(ex.map(lambda a: ctx.obj('gb', a[0], a[1]), sorted(pre)))
        except Fail as e:
            print('ERROR: %s' % e)
            return 2
        with cf.ThreadPoolExecutor(int(os.environ.get('VF_JOBS', spec.get('parallel', NCPU)))) as ex:
            futs = [ex.submit(run_job, ctx, j) for j in sorted(jobs, key=lambda j: -j.get('cost', 1))]
            for f in cf.as_completed(futs):
                r = f.result()
                results.append(r)
                if r['status'] == 'violation' and not os.environ.get('VF_ALL'):
                    ctx.stop()
                if verbose:
                    print('[%s] %-12s %6.1fs (symex %.1f solver %.1f) obl %d/%d covers %d val %d unwind %s vars %d %s' % (
                        r['name'], r['status'], r.get('wall_s', 0), r['symex_s'], r['solver_s'], r['discharged'], r['obligations'],
                        len(r['covers']), r['validated'], r.get('unwind'), r['vars'], '; '.join(r['notes'][:6])[:400].replace('\n', ' ')), flush=True)
    finally:
        wall = time.time() - ctx.t0
        ctx.close()
    results.sort(key=lambda r: r['name'])
    viol = [r for r in results if r['status'] == 'violation']
    inc = [r for r in results if r['status'] == 'inconclusive']
    listed = {(k['property'], k['name']) for k in load_known() if k.get('kind') == 'known'}
    rc = 0
    lines = []
    for r in results:
        for k in r['known']:
            if (prop, k['name']) in listed:
                lines.append('KNOWN-FINDING: property=%s %s' % (prop, k['name']))
            else:
                viol.append(r)
                r['status'] = 'violation'
                d = os.path.join(VERIF, 'replays', prop, r['name'] + '-unlisted')
                os.makedirs(d, exist_ok=True)
                open(os.path.join(d, 'inputs.txt'), 'w').write('\n'.join(map(str, k['inputs'])) + '\n')
                r['replay'] = d
    for l in sorted(set(lines)):
        print(l)
    evidence(prop, spec, jobs, results, tier, wall, viol, inc)
    if viol:
        for r in viol[:1]:
            print('%s: %s' % (r['name'], '; '.join(r['notes'][-2:])))
            print('VIOLATION property=%s replay=%s' % (prop, r['replay']))
        return 1
    if inc:
        for r in inc:
            print('INCONCLUSIVE %s: %s' % (r['name'], '; '.join(r['notes'])[:120].replace('\n', ' ')))
        return 2
    print('OK property=%s jobs=%d obligations=%d solver=%.1fs wall=%.1fs' % (
        prop, len(results), sum(r['discharged'] for r in results), sum(r['solver_s'] for r in results), wall))
    return 0

def evidence(prop, spec, jobs, results, tier, wall, viol, inc):
    fn = sorted({f for r in results for f in r['functions']})
    samples = [r['sample'] for r in results if r.get('sample')][:4]
    ev = {
        'property': prop, 'tier': tier, 'seed': SEED, 'level': 'other',
        'coverage': {
            'explanation': 'Bounded symbolic execution of the real C sources (CBMC: goto-cc front end, symbolic execution, bit-vector/array '
                           'formula, SAT decision). Each obligation is decided for every value of the symbolic inputs within the bounds; '
                           'unwinding assertions are part of the obligations. ' + spec.get('explain', ''),
            'bounds': spec.get('bounds', ''),
            'outside': spec.get('outside', ''),
            'functions_encoded': fn,
            'obligations': sum(r['obligations'] for r in results),
            'discharged': sum(r['discharged'] for r in results),
            'solver_queries': sum(r['queries'] for r in results),
            'solver_s': round(sum(r['solver_s'] for r in results), 2),
            'symex_s': round(sum(r['symex_s'] for r in results), 2),
            'reachability_witnesses': sum(len(r['covers']) for r in results),
            'witnesses_replayed_on_real_build': sum(r['validated'] for r in results),
            'harnesses': [{'name': r['name'], 'status': r['status'], 'defs': next((j.get('defs', {}) for j in jobs if j['name'] == r['name']), {}),
                           'source': next((j['src'] for j in jobs if j['name'] == r['name']), ''),
                           'unwind': r.get('unwind'), 'obligations': r['obligations'], 'discharged': r['discharged'], 'variables': r['vars'],
                           'clauses': r['clauses'], 'program_steps': r['steps'], 'solver_s': round(r['solver_s'], 2),
                           'wall_s': r.get('wall_s'), 'witnesses': r['covers'], 'unmodelled_callees': r.get('nobody', []), 'notes': r['notes'][:8]} for r in results],
            'checker_cmd': next((r['cmd'] for r in results if r.get('cmd')), ''),
            'trusted_base': ['CBMC 6.11 (goto-cc front end, symex, back end)', 'environment models in /verif/env and in each harness',
                             'gcc 13 + sanitizers for replay'],
            'samples': samples,
        },
        'assumptions': spec.get('assume', []),
        'wall_s': round(wall, 2),
        'violations': len(viol),
    }
    if inc:
        ev['coverage']['inconclusive'] = [r['name'] for r in inc]
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
