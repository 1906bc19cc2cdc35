"""Shared machinery of the checks: build the harness from /repo's working tree, run it, run TLC,
turn what they say into a verdict, an evidence file and a replay file."""
import json, os, re, shutil, signal, subprocess, sys, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(ROOT, '.build')
TARGET = os.path.join(BUILD, 'target')
SPEC = os.path.join(ROOT, 'spec')
DATA = os.path.join(SPEC, 'data')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
os.environ['PATH'] = os.path.expanduser('~/.cargo/bin') + ':/usr/local/bin:' + os.environ.get('PATH', '')


class ToolError(Exception):
    pass


def build_harness(crate='harness', repo=None, target=TARGET):
    env = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE='true')
    env.pop('RUSTFLAGS', None)
    p = subprocess.run(['cargo', 'build', '--release', '--offline', '--quiet'], cwd=os.path.join(ROOT, crate),
                       env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise ToolError('building %s against %s failed:\n%s' % (crate, REPO, p.stdout[-4000:]))
    return os.path.join(target, 'release', 'conform')


class Stop(Exception):
    """the violation found leaves nothing more to check"""


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == 'thorough'
        self.t0 = time.time()
        self.dir = os.path.join(BUILD, 'run', '%s-%d' % (pid, os.getpid()))
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.states = self.transitions = self.traces = 0
        self.samples, self.violations, self.notes, self.models = [], [], {}, {}
        self.exhaustive = False
        self.assumptions = []
        self._bin = None
        self.data = DATA             # what the specification reads as the Unicode character database

    # ------------------------------------------------------------------ harness
    @property
    def bin(self):
        if self._bin is None:
            self._bin = build_harness()
        return self._bin

    def path(self, name):
        return os.path.join(self.dir, name)

    def harness(self, *args, binary=None, what=None, mem_gb=14, timeout=800):
        """Run a harness command.  A crash or a hang of the code under test is a violation."""
        cmd = [binary or self.bin] + [str(a) for a in args]
        env = dict(os.environ, VERIF_SEED=str(self.seed), VERIF_TIER=self.tier, RUST_BACKTRACE='0')

        def limit():
            import resource
            resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        try:
            p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                               timeout=timeout, preexec_fn=limit)
        except subprocess.TimeoutExpired:
            raise ToolError('harness command timed out: %s' % ' '.join(cmd))
        if p.returncode == 0:
            return True
        tail = (p.stdout[-2000:] + '\n' + p.stderr[-2000:]).strip()
        if p.returncode == 42:
            self.violation({'kind': 'does-not-return', 'detail': tail, 'command': cmd[1:]})
            return False
        if p.returncode in (-signal.SIGABRT, -signal.SIGSEGV, -signal.SIGILL, -signal.SIGBUS):
            self.violation({'kind': 'crash', 'signal': -p.returncode, 'detail': tail, 'command': cmd[1:]})
            return False
        raise ToolError('harness command failed (%d): %s\n%s' % (p.returncode, ' '.join(cmd), tail))

    # ---------------------------------------------------------------------- TLC
    def tlc(self, module, model=False, cfg=None, timeout=840, xss='64m', heap='10g', args=(), workers=8, expect=None, **env):
        """Run TLC.  model=True: a theorem about the specification itself (failure = tool error);
        otherwise a conformance run, in which a violated invariant is a violation by the code."""
        meta = self.path('tlc-%s-%d' % (module, len(self.models)))
        e = dict(os.environ, VDATA=self.data, VDIR=self.dir, VERIF_SEED=str(self.seed), VERIF_TIER=self.tier)
        e.update({k: str(v) for k, v in env.items()})
        cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss' + xss, '-cp', JARS, 'tlc2.TLC', '-workers', str(workers),
               '-metadir', meta, '-noGenerateSpecTE', '-config', cfg or module + '.cfg'] + list(args) + [module + '.tla']
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError('TLC timed out on %s' % module)
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        out = p.stdout
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out.replace(',', '', 0))
        gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        if not m:
            m = re.findall(r'The number of states generated: (\d+)', out)
            gen = dist = int(m[-1]) if m else 0
        self.transitions += gen
        self.states += dist
        key = module if module not in self.models else '%s#%d' % (module, len(self.models))
        self.models[key] = {'states_generated': gen, 'distinct_states': dist,
                            'kind': 'model' if model else 'conformance'}
        mism = []
        for line in out.splitlines():
            if line.startswith('"MISMATCH '):
                body = line[1:-1].replace('\\"', '"').replace('\\\\', '\\')[9:]
                try:
                    mism.append(json.loads(body))
                except ValueError:
                    mism.append({'raw': body})
        if p.returncode == 0 and not mism:
            if gen == 0 and 'No error has been found' not in out and 'Finished in' not in out:
                raise ToolError('TLC gave no result on %s:\n%s' % (module, out[-3000:]))
            if expect is not None and dist != expect:
                raise ToolError('%s visited %d states, its trace has %d' % (module, dist, expect))
            return out
        # A conformance run that TLC cannot evaluate (a value of the wrong type or shape where the
        # specification expects another) is a trace outside the specification: on the unchanged
        # tree every trace evaluates.
        evalerr = re.search(r'Attempted to |is not in the domain|CHOOSE x|was not in the domain|not enumerable|'
                            r'The (first|second|third) argument|ClassCastException|Field name ', out) is not None
        if model or (p.returncode not in (12, 13) and not mism and not evalerr):
            raise ToolError('TLC failed on %s (exit %d):\n%s' % (module, p.returncode, out[-5000:]))
        for x in mism[:20]:
            self.violation(dict(x, kind='specification-rejects-trace', module=module))
        if not mism:
            self.violation({'kind': 'specification-rejects-trace', 'module': module, 'tlc': out[-3000:]})
        return out

    # ------------------------------------------------------------------- proofs
    def tlaps(self, module, *needs, timeout=600):
        """Have TLAPS check the proofs of a specification module (failure = tool error)."""
        work = self.path('tlaps-' + module)
        os.makedirs(work)
        for m in (module,) + needs:
            shutil.copy(os.path.join(SPEC, m + '.tla'), work)
        try:
            p = subprocess.run(['tlapm', '--threads', '6', module + '.tla'], cwd=work, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError('tlapm timed out on %s' % module)
        finally:
            shutil.rmtree(work, ignore_errors=True)
        m = re.search(r'All (\d+) obligations? proved', p.stdout)
        if p.returncode != 0 or not m:
            raise ToolError('tlapm does not prove %s (exit %d):\n%s' % (module, p.returncode, p.stdout[-3000:]))
        self.notes.setdefault('tlaps_obligations_proved', {})[module] = int(m.group(1))

    # ------------------------------------------------------------------ verdict
    def violation(self, detail):
        self.violations.append(detail)

    def sample(self, *xs):
        for x in xs:
            if len(self.samples) < 12:
                self.samples.append(x)

    def known(self):
        f = os.path.join(ROOT, 'known-findings.txt')
        out = []
        if os.path.exists(f):
            for line in open(f):
                m = re.match(r'finding: property=(\S+) match="((?:[^"\\]|\\.)*)" (.*)', line.strip())
                if m and m.group(1) == self.pid:
                    out.append((m.group(2).replace('\\"', '"'), m.group(3)))
        return out

    def finish(self):
        new, hit = [], set()
        for v in self.violations:
            txt = json.dumps(v, sort_keys=True)
            k = next((k for k in self.known() if k[0] in txt), None)
            if k:
                hit.add(k)
            else:
                new.append(v)
        for k in self.known():
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k[1]))
        cov = {'states': self.states, 'transitions': self.transitions,
               'traces_validated_against_impl': self.traces, 'samples': self.samples or ['(none)'],
               'exhaustive': self.exhaustive, 'tlc_runs': self.models}
        cov.update(self.notes)
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'model_checking',
              'coverage': cov, 'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2),
              'violations': len(new)}
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.dir, ignore_errors=True)
        if new:
            rd = os.path.join(BUILD, 'replay')
            os.makedirs(rd, exist_ok=True)
            rp = os.path.join(rd, '%s.json' % self.pid)
            with open(rp, 'w') as f:
                json.dump({'property': self.pid, 'tier': self.tier, 'seed': self.seed,
                           'rerun': 'VERIF_SEED=%d VERIF_TIER=%s python3 check.py %s' % (self.seed, self.tier, self.pid),
                           'violations': new[:50]}, f, indent=1)
            for v in new[:5]:
                print('  ' + json.dumps(v)[:1500])
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        print('OK property=%s tier=%s states=%d transitions=%d traces=%d wall=%.1fs' % (
            self.pid, self.tier, self.states, self.transitions, self.traces, time.time() - self.t0))
        return 0


def main(table):
    if len(sys.argv) < 2 or sys.argv[1] not in table:
        print('usage: check.py %s [quick|thorough]' % '|'.join(table))
        return 2
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    c = Check(pid, tier, seed)
    try:
        try:
            table[pid](c)
        except Stop:
            pass
        return c.finish()
    except ToolError as e:
        print('TOOL-ERROR property=%s\n%s' % (pid, e))
        shutil.rmtree(c.dir, ignore_errors=True)
        return 2
