"""Common machinery of all checks: build a harness from /repo, let TLC check / generate from / validate against the
specifications in /verif/spec, and report."""
import json, threading
import os, random, re, resource, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
JAR = '/opt/veriftools/tla/tla2tools.jar'

INC = ['ct_core/include', 'ct_optcon/include', 'ct_rbd/include', 'ct_models/include']
# poisoned memory and checked containers: uninitialised or out-of-range reads do not go unnoticed
WARN = ['-w', '-std=c++14', '-ftemplate-depth=1000', '-D_GLIBCXX_ASSERTIONS', '-ftrivial-auto-var-init=pattern']
SYSINC = ['/usr/include/eigen3']
LIBS = ['-lboost_filesystem', '-lboost_system', '-lpthread']


class Broken(Exception):
    """The check itself could not be carried out (not a verdict)."""


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.work = os.path.join(VERIF, '.work', pid)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.t0 = time.time()
        self.rng = random.Random(seed * 7919 + sum(map(ord, pid)))
        self.violations = []
        self.known = []
        self.cov = dict(states=0, transitions=0, model_runs=[], traces_validated_against_impl=0,
                        steps_validated_against_impl=0, behaviours_replayed=0, samples=[])

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def log(self, *a):
        print('[%s %6.1fs]' % (self.pid, time.time() - self.t0), *a, flush=True)

    # ---------------------------------------------------------------- build
    def build(self, src, extra=(), libs=(), opt='-O1', name=None, defs=(), quote=False):
        out = os.path.join(self.work, name or os.path.basename(src).split('.')[0])
        cmd = ['g++'] + WARN + ([opt, '-iquote', os.path.join(VERIF, 'harness')] if quote else [opt, '-I' + os.path.join(VERIF, 'harness')])
        for d in INC:
            cmd += ['-I' + os.path.join(REPO, d)]
        for d in SYSINC:
            cmd += ['-isystem', d]
        # header which the repository's build generates (git-ignored): used when it is not there
        gen = os.path.join(self.work, 'inc', 'ct', 'core')
        os.makedirs(gen, exist_ok=True)
        for d in (gen, os.path.join(self.work, 'inc')):
          with open(os.path.join(d, 'templateDir.h'), 'w') as f:
            f.write('#pragma once\nnamespace ct {\nnamespace core {\nstatic const std::string CODEGEN_TEMPLATE_DIR = "";\n'
                    'static const std::string CODEGEN_OUTPUT_DIR = "";\n}\n}\n')
        cmd += ['-idirafter', os.path.join(self.work, 'inc')]
        cmd += list(extra) + list(defs)
        cmd += [os.path.join(VERIF, 'harness', src), '-o', out] + list(libs) + LIBS
        t = time.time()
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise Broken('harness does not compile:\n' + p.stdout[-6000:])
        self.log('built %s in %.1f s' % (os.path.basename(out), time.time() - t))
        return out

    def build_all(self, jobs):
        """jobs: list of keyword dicts for build(), built concurrently; returns the binaries in order."""
        res = [None] * len(jobs)

        def one(i):
            try:
                res[i] = self.build(**jobs[i])
            except Exception as ex:      # handed to the caller below
                res[i] = ex
        th = [threading.Thread(target=one, args=(i,)) for i in range(len(jobs))]
        [t.start() for t in th]
        [t.join() for t in th]
        for r in res:
            if isinstance(r, Exception):
                raise r
        return res

    # ---------------------------------------------------------------- harness
    def run_harness(self, binary, scripts, timeout=150, env=None, tag='h'):
        """scripts: list of lists of (op, [int...]).  Returns (sessions, crashes): sessions is a list of dicts
        {'id', 'ev'}, crashes a list of (id, why)."""
        todo = list(range(len(scripts)))
        sessions, crashes = {}, []
        rounds = 0
        while todo:
            rounds += 1
            sp = os.path.join(self.work, '%s.script' % tag)
            op = os.path.join(self.work, '%s.out' % tag)
            with open(sp, 'w') as f:
                for i in todo:
                    f.write('S %d\n' % (i + 1))
                    for o, a in scripts[i]:
                        f.write(' '.join([o] + [str(int(v)) for v in a]) + '\n')
            if os.path.exists(op):
                os.remove(op)
            e = dict(os.environ, MALLOC_PERTURB_='128')
            e.update(env or {})
            why, hung = None, False
            try:
                p = subprocess.run([binary, sp, op], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                                   timeout=timeout, env=e)
                if p.returncode == 2 and b'HARNESS' in p.stderr:
                    raise Broken('harness: ' + p.stderr.decode(errors='replace')[-800:])
                if p.returncode:
                    why = 'ended with status %d: %s' % (p.returncode, p.stderr.decode(errors='replace')[-1500:])
            except subprocess.TimeoutExpired:
                why = 'no answer within %d s' % timeout
                hung = True
            cur = None
            done = set()
            for line in open(op, errors='replace') if os.path.exists(op) else []:
                if line.startswith('#'):
                    cur = int(line[1:])
                elif line.endswith('\n'):
                    try:
                        s = json.loads(line)
                    except ValueError:
                        continue
                    sessions[s['id']] = s
                    done.add(s['id'])
            if why is None:
                miss = [i for i in todo if (i + 1) not in done]
                if miss:
                    raise Broken('harness lost sessions %s' % miss[:5])
                break
            if cur in done:
                why = 'while the session was being torn down: ' + why
            if cur is None:
                raise Broken('harness failed outside any session: ' + why)
            crashes.append((cur, why))
            rest = [i for i in todo if (i + 1) not in done and (i + 1) != cur]
            if hung or len(crashes) >= 3:
                break
            todo = rest
        return [sessions[k] for k in sorted(sessions)], crashes

    def run_parallel(self, binary, scripts, timeout, envs):
        """The scripts, split over len(envs) concurrent harness processes."""
        n = len(envs)
        parts = [list(range(k, len(scripts), n)) for k in range(n)]
        res = [None] * n

        def one(k):
            try:
                res[k] = self.run_harness(binary, [scripts[i] for i in parts[k]], timeout=timeout, env=envs[k], tag='h%d' % k)
            except Exception as ex:      # handed to the caller below
                res[k] = ex
        th = [threading.Thread(target=one, args=(k,)) for k in range(n)]
        [t.start() for t in th]
        [t.join() for t in th]
        sessions, crashes = [], []
        for k in range(n):
            if isinstance(res[k], Exception):
                raise res[k]
            for s in res[k][0]:
                s['id'] = parts[k][s['id'] - 1] + 1
                sessions.append(s)
            crashes += [(parts[k][i - 1] + 1, why) for i, why in res[k][1]]
        sessions.sort(key=lambda s: s['id'])
        return sessions, crashes

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg, workers=8, env=None, timeout=800, args=(), heap='6g', tag=None, jvm=()):
        meta = os.path.join(self.work, 'meta_%s' % (tag or module))
        shutil.rmtree(meta, ignore_errors=True)
        cfgp = os.path.join(self.work, '%s.cfg' % (tag or module))
        with open(cfgp, 'w') as f:
            f.write(cfg)
        cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m', '-Djava.io.tmpdir=' + self.work] + list(jvm) + [
            '-cp', JAR + ':' + classpath(), 'tlc2.TLC', '-metadir', meta, '-workers', str(workers), '-nowarning',
            '-config', cfgp] + list(args) + [os.path.join(SPEC, module + '.tla')]
        e = dict(os.environ)
        e.update(env or {})
        outp = os.path.join(self.work, '%s.tlcout' % (tag or module))
        t = time.time()
        with open(outp, 'w') as f:
            try:
                p = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, env=e, cwd=SPEC, timeout=timeout)
            except subprocess.TimeoutExpired:
                raise Broken('TLC gave no answer on %s within %d s' % (module, timeout))
        shutil.rmtree(meta, ignore_errors=True)
        res = dict(rc=p.returncode, out=outp, wall=time.time() - t, states=0, transitions=0)
        with open(outp, errors='replace') as f:
            txt = f.read()
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', txt)
        if m:
            res['transitions'], res['states'] = int(m[-1][0]), int(m[-1][1])
        res['text'] = txt
        return res

    def model_check(self, module, cfg, what, **kw):
        """Exhaustively check the specification itself.  A failure here is a defect of the specification (its text
        does not depend on /repo), hence of the check, not of the code."""
        r = self.tlc(module, cfg, **kw)
        if r['rc'] != 0:
            raise Broken('model checking %s failed:\n%s' % (module, r['text'][-4000:]))
        self.cov['states'] += r['states']
        self.cov['transitions'] += r['transitions']
        self.cov['model_runs'].append(dict(module=module, what=what, states=r['states'],
                                           transitions=r['transitions'], wall_s=round(r['wall'], 1)))
        self.log('TLC %s (%s): %d states, %d transitions, %.1f s' % (module, what, r['states'], r['transitions'], r['wall']))
        return r

    def generate(self, module, cfg, what, maximal=True, limit=None, **kw):
        """Behaviours generated by TLC from the specification: lines 'SCRIPT [...]' printed by the module."""
        r = self.model_check(module, cfg, what, **kw)
        seqs = []
        for line in r['text'].splitlines():
            if line.startswith('"SCRIPT '):
                body = json.loads(line)[7:]
                seqs.append([(x['op'], tuple(x['a'])) for x in json.loads(body)])
        total = len(seqs)
        if maximal:
            prefixes = set()
            for s in seqs:
                for k in range(1, len(s)):
                    prefixes.add(tuple(s[:k]))
            seqs = [s for s in seqs if tuple(s) not in prefixes]
        seqs = sorted(set(map(tuple, seqs)))
        if limit and len(seqs) > limit:
            seqs = self.rng.sample(seqs, limit)
        self.log('%s: %d transitions printed, %d behaviours to replay' % (module, total, len(seqs)))
        return [list(s) for s in seqs]

    def validate(self, module, sessions, what, cfg=None, chunk=None, **kw):
        """Let TLC decide which recorded sessions are behaviours of the specification.
        Returns list of rejected (session, step, expected-text)."""
        cfg = cfg or 'INIT TInit\nNEXT TNext\nCHECK_DEADLOCK FALSE\n'
        rejected = []
        nsteps = sum(len(s['ev']) for s in sessions)
        chunk = chunk or len(sessions)
        for c in range(0, len(sessions), max(1, chunk)):
            part = sessions[c:c + chunk]
            tp = os.path.join(self.work, 'trace_%s.ndjson' % module)
            with open(tp, 'w') as f:
                for s in part:
                    f.write(json.dumps(s, separators=(',', ':')) + '\n')
            r = self.tlc(module, cfg, env={'TRACE': tp}, tag=module + '_trace', **kw)
            acc, rej = set(), {}
            for line in r['text'].splitlines():
                m = re.match(r'"ACCEPT (\d+)"', line)
                if m:
                    acc.add(int(m.group(1)))
                    continue
                m = re.match(r'"REJECT (\d+) (\d+) (.*)"$', line)
                if m:
                    rej[int(m.group(1))] = (int(m.group(2)), m.group(3).replace('\\"', '"'))
            if r['rc'] != 0:
                raise Broken('trace validation with %s broke:\n%s' % (module, r['text'][-3000:]))
            if len(acc | set(rej)) != len(part):
                raise Broken('trace validation with %s is incomplete: %d of %d' % (module, len(acc | set(rej)), len(part)))
            for k in sorted(rej):
                rejected.append((part[k - 1], rej[k][0], rej[k][1]))
        self.cov['traces_validated_against_impl'] += len(sessions)
        self.cov['steps_validated_against_impl'] += nsteps
        self.log('TLC %s (%s): %d recorded behaviours, %d steps, %d rejected' % (module, what, len(sessions), nsteps, len(rejected)))
        return rejected

    # ---------------------------------------------------------------- the standard conformance loop
    def conform(self, binary, module, scripts, what, timeout=150, env=None, confirm=True, cfg=None, chunk=None, envs=None, **kw):
        if not scripts or self.violations:
            return
        self.cov['behaviours_replayed'] += len(scripts)
        if envs:
            sessions, crashes = self.run_parallel(binary, scripts, timeout, envs)
        else:
            sessions, crashes = self.run_harness(binary, scripts, timeout=timeout, env=env)
        for s in sessions[:1] + sessions[-1:]:
            self.cov['samples'].append(dict(of=what, session=s['ev'][:12]))
        rejected = self.validate(module, sessions, what, cfg=cfg, chunk=chunk, **kw) if sessions else []
        for sid, why in crashes:
            s2, c2 = self.run_harness(binary, [scripts[sid - 1]], timeout=min(timeout, 60), env=env, tag='confirm')
            if c2 or not confirm:
                self.violation('%s: the code crashed or hung' % what,
                               dict(script=scripts[sid - 1], why=why))
        n = 0
        for s, step, exp in rejected:
            if n >= 2:
                break
            scr = scripts[s['id'] - 1]
            if confirm:
                s2, c2 = self.run_harness(binary, [scr], timeout=timeout, env=env, tag='confirm')
                if s2:
                    s2[0]['id'] = 1
                    r2 = self.validate(module, s2, what + ' (confirmation)', cfg=cfg, **kw)
                    if not r2:
                        continue
                    s, step, exp = r2[0][0], r2[0][1], r2[0][2]
            n += 1
            self.violation('%s: recorded behaviour is not a behaviour of %s' % (what, module),
                           dict(script=scr, rejected_step=step, event=s['ev'][step - 1], specification=exp))

    def violation(self, what, detail):
        d = os.path.join(VERIF, '.work', 'replay')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, '%s_%d.json' % (self.pid, len(self.violations) + 1))
        with open(p, 'w') as f:
            json.dump(dict(property=self.pid, what=what, detail=detail), f, indent=1)
        self.violations.append((what, p))
        self.log('VIOLATED:', what, json.dumps(detail)[:900])

    # ---------------------------------------------------------------- evidence
    def finish(self, level, notes):
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=level, coverage=self.cov,
                  wall_s=round(time.time() - self.t0, 1), assumptions=notes,
                  violations=len(self.violations), violated=[w for w, _ in self.violations])
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for w, p in self.violations:
            print('VIOLATION property=%s replay=%s' % (self.pid, p), flush=True)
        return 1 if self.violations else 0


_cp = None


def classpath():
    global _cp
    if _cp is None:
        base = '/opt/veriftools/tla'
        _cp = ':'.join(os.path.join(base, f) for f in sorted(os.listdir(base)) if f.endswith('.jar'))
    return _cp
