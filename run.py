#!/usr/bin/env python3
"""Runs the check of one property.

  run.py C09              VERIF_SEED and VERIF_TIER choose the seed and the tier
  run.py C09 --replay F   re-runs one saved failing case

Builds the property's harness from /repo's working tree (an optimised build, a sanitized build with
pattern-filled locals and heap, a clang++ -O3 -DNDEBUG C++20 build, and for the thread property a
ThreadSanitizer build), runs the generated cases, in the thorough tier follows with a
coverage-guided libFuzzer campaign over the same property code, writes evidence/<id>.json, and prints
VIOLATION lines for confirmed failures.  Exit 0: held; 1: violated; 2: the check could not be carried out.
"""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('CS_REPO', '/repo')
INC = os.path.join(REPO, 'include')
HARNESS = os.path.join(ROOT, 'harness')
SAN = ['-fsanitize=address,undefined', '-fno-sanitize=shift', '-fno-sanitize-recover=all']
SANENV = dict(ASAN_OPTIONS='abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:max_malloc_fill_size=1048576:malloc_fill_byte=255', UBSAN_OPTIONS='abort_on_error=1:print_stacktrace=0',
              TSAN_OPTIONS='abort_on_error=1:halt_on_error=1')
# case counts of the quick and the thorough tier relative to the defaults in the harness
SCALE = dict(C01=(5, 1), C02=(6, 1), C03=(6, 1), C04=(5, 1), C05=(5, 1), C06=(6, 1), C07=(6, 1), C08=(6, 1), C09=(5, 1), C10=(5, 1), C11=(3, 1), C12=(4, 1), C13=(4, 1),
             C14=(5, 1), C15=(2, 1), C16=(5, 1), C17=(5, 1), C18=(6, 1), C19=(3, 1), C20=(5, 1), C21=(6, 1), C22=(3, 1), C23=(3, 1), C24=(6, 1), C25=(6, 1), C27=(1, 1), C28=(3, 1))
FUZZ_SECONDS = 60
QUICK_BUDGET = dict(plain=330, asan=150, alt=100, tsan=90)  # seconds; far above what the current tree needs
SEED_STEP = dict(plain=0, asan=500009, alt=1000003, tsan=1500007)  # every build explores cases of its own
NCPU = os.cpu_count() or 1


def sh(cmd, timeout=None, env=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=dict(os.environ, **(env or {})),
                           text=True, errors='replace')
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return -1, 'timeout after %s s' % timeout


# C29: the configurations compared with g++ -O2 -std=gnu++17
CONFIGS = {
    'g++ -O0 -std=c++14 -D_GLIBCXX_ASSERTIONS': 'g++ -O0 -std=c++14 -D_GLIBCXX_ASSERTIONS',
    'g++ -O3 -DNDEBUG -std=gnu++20': 'g++ -O3 -DNDEBUG -std=gnu++20',
    'g++ -Os -funsigned-char -ftrivial-auto-var-init=pattern': 'g++ -Os -std=gnu++17 -funsigned-char -ftrivial-auto-var-init=pattern',
    'g++ -O1 -DNDEBUG -ftrivial-auto-var-init=zero': 'g++ -O1 -DNDEBUG -std=gnu++17 -ftrivial-auto-var-init=zero',
    'clang++ -O0 -std=c++17 -ftrivial-auto-var-init=pattern': 'clang++ -O0 -std=c++17 -ftrivial-auto-var-init=pattern',
    'clang++ -O2 -std=c++14': 'clang++ -O2 -std=c++14',
    'clang++ -O3 -DNDEBUG -std=gnu++20': 'clang++ -O3 -DNDEBUG -std=gnu++20',
}


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.src = os.path.join(HARNESS, pid.lower() + '.cpp')
        os.makedirs(os.path.join(ROOT, '.build'), exist_ok=True)
        self.d = tempfile.mkdtemp(prefix=pid + '-', dir=os.path.join(ROOT, '.build'))
        self.replays = os.path.join(ROOT, 'replays')
        self.runs, self.viol, self.errors, self.notes = [], [], [], []

    # ------------------------------------------------------------ builds
    def build(self, kind):
        exe = os.path.join(self.d, kind)
        base = ['-std=gnu++17', '-w', '-Wno-invalid-constexpr', '-I' + INC, '-I' + HARNESS, self.src, '-o', exe, '-pthread']
        if kind == 'plain':
            cmd = ['g++', '-O2', '-g1'] + base
        elif kind == 'asan':
            cmd = ['g++', '-O1', '-g1', '-D_GLIBCXX_SANITIZE_VECTOR=1', '-ftrivial-auto-var-init=pattern'] + SAN + base
        elif kind == 'alt':  # another compiler, language version and optimisation level, assertions off
            cmd = ['clang++', '-O3', '-g1', '-DNDEBUG'] + ['-std=gnu++20' if x == '-std=gnu++17' else x for x in base]
        elif kind == 'tsan':
            cmd = ['g++', '-O1', '-g1', '-fsanitize=thread'] + base
        else:
            cmd = ['clang++', '-O1', '-g1', '-DPBT_FUZZ', '-fsanitize=fuzzer'] + SAN + base
        rc, out = sh(cmd, 600)
        return exe if rc == 0 else None, out

    def configurations(self):
        """C29: one shared object per configuration, from two translation units"""
        flags = ['-w', '-Wno-invalid-constexpr', '-fPIC', '-fvisibility=hidden', '-fvisibility-inlines-hidden', '-ffp-contract=off', '-I' + INC, '-I' + HARNESS]
        src = os.path.join(HARNESS, 'c29lib.cpp')
        jobs = [(i, n, c.split() + (['-fno-gnu-unique'] if c.startswith('g++') else []), u) for i, (n, c) in enumerate(CONFIGS.items()) for u in (0, 1)]

        def obj(j):
            i, n, c, u = j
            return sh(c + flags + (['-DSECOND_UNIT'] if u else []) + ['-c', src, '-o', '%s/lib%d-%d.o' % (self.d, i, u)], 600)

        with cf.ThreadPoolExecutor(NCPU) as ex:
            res = list(ex.map(obj, jobs))
        out = []
        for i, n in enumerate(CONFIGS):
            so = '%s/lib%d.so' % (self.d, i)
            bad = [o for (rc, o), j in zip(res, jobs) if j[0] == i and rc]
            if not bad:
                rc, o = sh([CONFIGS[n].split()[0], '-shared', '-Wl,-Bsymbolic', '%s/lib%d-0.o' % (self.d, i), '%s/lib%d-1.o' % (self.d, i), '-o', so], 300)
                bad = [o] if rc else []
            if bad:
                self.notes.append('not compared with %s, which does not build: %s' % (n, bad[0][:500]))
            else:
                out.append('%s=%s' % (n, so))
        if len(out) < 3:
            self.errors.append('fewer than three configurations build')
        return ';'.join(out)

    def args(self, build, scale, extra=()):
        o = os.path.join(self.d, build + '.json')
        return o, ['--seed', str(self.seed + SEED_STEP[build]), '--tier', self.tier, '--scale', str(scale), '--jobs', str(NCPU), '--out', o,
                   '--replays', self.replays, '--property', self.pid, '--build', build] + list(extra)

    def campaign(self, cmd, build, scale, extra=(), env=None, optional=False):
        o, a = self.args(build, scale, extra)
        if self.tier == 'quick' and self.pid != 'C28':
            a += ['--budget', str(QUICK_BUDGET[build])]
        rc, out = sh(cmd + a, 14000 if self.tier == 'thorough' else 850, dict(SANENV, **(env or {})))
        try:
            with open(o) as f:
                j = json.load(f)
        except (OSError, ValueError):
            (self.notes if optional else self.errors).append('%s run ended with %s: %s' % (build, rc, out[-800:]))
            return
        self.runs.append((build, j))
        if j.get('cut'):
            self.notes.append('%s build: time budget used up before all planned cases were run' % build)
        for v in j['violations']:
            self.viol.append(dict(v, build=build))
        for u in j['unconfirmed']:
            self.notes.append('%s build, seen once and not reproduced: %s' % (build, u[:400]))
        if rc not in (0, 1):
            self.errors.append('%s run ended with %s: %s' % (build, rc, out[-800:]))

    # ------------------------------------------------------------ coverage-guided search
    def fuzz(self, exe, asan):
        """one libFuzzer process per core; a failing input is confirmed three times before it counts"""
        secs = int(os.environ.get('VERIF_FUZZ_SECONDS', FUZZ_SECONDS))
        corp = os.path.join(self.d, 'corpus')
        t = time.time()

        def one(k):
            c = '%s%d' % (corp, k)
            os.makedirs(c)
            cmd = [exe, c, '-seed=%d' % (self.seed * 1000 + k + 1), '-max_total_time=%d' % secs, '-max_len=%d' % (512 if k % 2 else 2048), '-len_control=20',
                   '-timeout=60', '-rss_limit_mb=3000', '-print_final_stats=1', '-artifact_prefix=%s/crash%d-' % (self.d, k), '-use_value_profile=%d' % (k % 2)]
            return sh(cmd, secs + 300, SANENV)

        with cf.ThreadPoolExecutor(NCPU) as ex:
            res = list(ex.map(one, range(NCPU)))
        ex = cov = 0
        for rc, out in res:
            m = re.findall(r'stat::number_of_executed_units:\s*(\d+)', out)
            ex += int(m[-1]) if m else 0
            m = re.findall(r'cov: (\d+)', out)
            cov = max(cov, int(m[-1]) if m else 0)
        corpn = sum(len(os.listdir('%s%d' % (corp, k))) for k in range(NCPU))
        self.fuzzstat = dict(executions=ex, coverage_edges=cov, corpus_inputs_kept=corpn, processes=NCPU, seconds=round(time.time() - t, 1))
        if ex == 0:
            self.errors.append('the fuzzer did not run: ' + res[0][1][-600:])
        for k, (rc, out) in enumerate(res):
            arts = [f for f in sorted(os.listdir(self.d)) if f.startswith('crash%d-' % k)]
            arts = [f for f in arts if re.match(r'crash\d+-(crash|timeout)-', f)]
            if rc == 0 or not arts:
                continue
            inp = os.path.join(self.d, arts[0])
            again = sum(sh([exe, '-timeout=60', inp], 120, SANENV)[0] != 0 for _ in range(3))
            if again < 3:
                self.notes.append('fuzzing: %s not reproduced' % arts[0])
                continue
            os.makedirs(self.replays, exist_ok=True)
            m = re.search(r'PBT_FAIL sub=(\S+) msg=(.*)\nPBT_CHOICES(.*)', out)
            if m:
                path = os.path.join(self.replays, '%s-%s-fuzz%d.replay' % (self.pid, m.group(1), k))
                with open(path, 'w') as f:
                    f.write('property %s\nsub %s\nbuild asan\nchoices%s\n# found by coverage-guided fuzzing: %s\n' % (self.pid, m.group(1), m.group(3), m.group(2)))
                if sh([asan, '--replay', path, '--property', self.pid], 300, SANENV)[0] == 1:
                    self.viol.append(dict(sub=m.group(1), kind='oracle', message=m.group(2), case='choices' + m.group(3)[:600], replay=path, build='fuzz'))
                    continue
                os.unlink(path)
            path = os.path.join(self.replays, '%s-fuzz%d.replay' % (self.pid, k))
            with open(inp, 'rb') as f, open(path, 'w') as o:
                o.write('property %s\nsub fuzz\nbuild fuzz\nbytes %s\n' % (self.pid, f.read().hex()))
            i = max(out.find('ERROR:'), out.find('runtime error'), 0)
            self.viol.append(dict(sub='fuzz', kind='crash', message=out[i:i + 600], case=path, replay=path, build='fuzz'))

    # ------------------------------------------------------------ driver
    def run(self):
        sq, st = SCALE.get(self.pid, (1, 1))
        scale = st if self.tier == 'thorough' else sq
        if self.pid == 'C26' and self.tier == 'quick' and NCPU < 4:
            scale = .25
        if self.pid == 'C28':
            self.campaign([sys.executable, os.path.join(HARNESS, 'c28.py')], 'plain', scale, env=dict(CS_INCLUDE=INC))
            return
        if self.pid == 'C29':
            with cf.ThreadPoolExecutor(2) as ex:
                a, b = ex.submit(self.build, 'plain'), ex.submit(self.configurations)
                (exe, out), libs = a.result(), b.result()
            if exe is None:
                self.errors.append('the harness does not build:\n' + out[:3000])
            if not self.errors:
                self.campaign([exe], 'plain', scale, env=dict(CS29_LIBS=libs))
            return
        kinds = ['plain', 'asan', 'alt'] + (['tsan'] if self.pid == 'C27' else []) + (['fuzz'] if self.tier == 'thorough' and self.pid not in ('C20', 'C26') else [])
        with cf.ThreadPoolExecutor(4) as ex:
            exes = dict(zip(kinds, ex.map(self.build, kinds)))
        for k in kinds:
            exe, out = exes[k]
            if exe is None:
                if k in ('tsan', 'alt'):
                    self.notes.append('no %s build: %s' % (k, out[:300]))
                else:
                    self.errors.append('the %s build of the harness failed:\n%s' % (k, out[:3000]))
        if self.errors:
            return
        self.campaign([exes['plain'][0]], 'plain', scale)
        self.campaign([exes['asan'][0]], 'asan', scale)
        if exes['alt'][0]:
            self.campaign([exes['alt'][0]], 'alt', scale)
        if exes.get('tsan', [None])[0] and not self.viol:
            self.campaign([exes['tsan'][0]], 'tsan', scale * .1, ['--sub', 'threads'], optional=True)
        if 'fuzz' in exes and not self.viol and not self.errors:
            self.fuzz(exes['fuzz'][0], exes['asan'][0])

    def known(self):
        """entries 'known: property=<id> <sub> <kind> :: <text of the case>' of known_findings.txt"""
        k = []
        try:
            for l in open(os.path.join(ROOT, 'known_findings.txt')):
                m = re.match(r'known: property=(\S+) (\S+) :: (.*?) :: (.*)', l)
                if m and m.group(1) == self.pid:
                    k.append((m.group(2), m.group(3), m.group(4).strip()))
        except OSError:
            pass
        return k

    def evidence(self, nviol):
        ev = dist = 0
        rules, samples, subs, exh = [], [], [], False
        for build, j in self.runs:
            for s in j['subs']:
                ev += s['evaluations']
                if build == 'plain':
                    dist += s['distinct']
                    rules.append('%s: %s' % (s['name'], s['rule']))
                    samples += ['%s: %s' % (s['name'], x) for x in s['samples'][:3]]
                e = dict(build=build, name=s['name'], evaluations=s['evaluations'], nontrivial=s['nontrivial'], distinct_nontrivial=s['distinct'], cpu_s=round(s['cpu_s'], 2),
                         enumerated_completely=bool(s['exhaustive']), classes=s['labels'])
                if s['worst_error_over_tolerance']:
                    e['worst_error_over_tolerance'] = {k: round(v, 6) for k, v in s['worst_error_over_tolerance'].items()}
                subs.append(e)
        cov = dict(evaluations=ev, distinct_nontrivial=dist, rule='Cases come from the seeded generators of harness/%s; evaluations count every build (optimised, sanitized, '
                   'clang -O3 without assertions), distinct non-trivial cases only the optimised one. Per check: ' % (os.path.basename(self.src) if self.pid != 'C28' else 'c28.py') + ' | '.join(rules),
                   samples=samples, checks=subs, shrink_steps=sum(j['shrink_steps'] for _, j in self.runs))
        plain = [s for b, j in self.runs if b == 'plain' for s in j['subs']]
        if plain and all(s['exhaustive'] for s in plain):
            cov['exhaustive'] = True
        if getattr(self, 'fuzzstat', None):
            cov['coverage_guided_fuzzing'] = self.fuzzstat
            cov['evaluations'] += self.fuzzstat['executions']
        e = dict(property=self.pid, tier=self.tier, seed=self.seed, level='exploration', coverage=cov,
                 assumptions=['oracle constants and formulas in harness/ are those of the published standards', 'g++ and clang++ on x86-64, IEEE single precision, no -ffast-math'],
                 wall_s=round(time.time() - self.t0, 2), violations=nviol)
        if self.notes:
            e['notes'] = self.notes
        if self.viol:
            e['violation_details'] = self.viol
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        p = os.path.join(ROOT, 'evidence', self.pid + '.json')
        with open(p + '.tmp', 'w') as f:
            json.dump(e, f, indent=1)
        os.replace(p + '.tmp', p)

    def finish(self):
        kn = self.known()
        new, seen = [], set()
        for v in self.viol:
            for sub, kind, text in kn:
                if v['sub'] == sub and v['kind'] == kind and text in v['case']:
                    if (sub, kind, text) not in seen:
                        seen.add((sub, kind, text))
                        print('KNOWN-FINDING: property=%s %s %s %s' % (self.pid, sub, kind, text))
                    break
            else:
                new.append(v)
        self.evidence(len(new))
        for n in self.notes:
            print('note: ' + n)
        for v in new:
            print('%s %s (%s build): %s\n  case: %s' % (self.pid, v['sub'], v['build'], v['message'][:1500], v['case'][:1500]))
        for v in new:
            print('VIOLATION property=%s replay=%s' % (self.pid, v['replay']))
        if new:
            return 1
        if self.errors:
            print('\n'.join(self.errors))
            return 2
        n = sum(s['evaluations'] for _, j in self.runs for s in j['subs'])
        print('%s held on %d generated cases (%s, seed %d, %.1f s)' % (self.pid, n, self.tier, self.seed, time.time() - self.t0))
        return 0

    def replay(self, path):
        txt = open(path).read()
        m = re.search(r'^build (\w+)', txt, re.M)
        kind = m.group(1) if m else 'plain'
        if self.pid == 'C28':
            rc, out = sh([sys.executable, os.path.join(HARNESS, 'c28.py'), '--replay', path], 600, dict(CS_INCLUDE=INC))
        else:
            exe, out = self.build(kind)
            if exe is None:
                print(out)
                return 2
            if kind == 'fuzz':
                inp = os.path.join(self.d, 'input')
                with open(inp, 'wb') as f:
                    f.write(bytes.fromhex(re.search(r'^bytes (\w*)', txt, re.M).group(1)))
                rc, out = sh([exe, inp], 300, SANENV)
                rc = 1 if rc else 0
            else:
                env = dict(SANENV, CS29_LIBS=self.configurations()) if self.pid == 'C29' else SANENV
                rc, out = sh([exe, '--replay', path, '--property', self.pid, '--build', kind], 600, env)
        print(out)
        if rc == 1:
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
        return rc


def main():
    pid = sys.argv[1].upper()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' or '--thorough' in sys.argv else 'quick'
    c = Check(pid, tier, seed)
    try:
        if '--replay' in sys.argv:
            return c.replay(os.path.abspath(sys.argv[sys.argv.index('--replay') + 1]))
        c.run()
        return c.finish()
    finally:
        shutil.rmtree(c.d, ignore_errors=True)


sys.exit(main())
