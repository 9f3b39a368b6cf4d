#!/usr/bin/env python3
"""Builds the monitors of one property against /repo's working tree, runs them, judges what they
observed, and writes the evidence file.   check.py P06 quick|thorough [--keep] [--cases N] [--only I]"""
import concurrent.futures, hashlib, json, os, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
HARNESS = os.path.join(VERIF, 'harness')
CPUS = os.cpu_count() or 8
sys.path.insert(0, HARNESS)

ASAN = ['-fsanitize=address']
ASAN_UBSAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all',
              '-fsanitize-ignorelist=' + os.path.join(HARNESS, 'common', 'ubsan.ignore')]
TSAN = ['-fsanitize=thread']
ENV = {
    'ASAN_OPTIONS': 'detect_odr_violation=0:detect_leaks=1:abort_on_error=0:exitcode=99:allocator_may_return_null=1:handle_abort=1',
    'UBSAN_OPTIONS': 'print_stacktrace=1:exitcode=99',
    'TSAN_OPTIONS': 'exitcode=98:halt_on_error=1:second_deadlock_stack=1',
    'LSAN_OPTIONS': 'exitcode=97',
}


class NoAnswer(Exception):
    pass


class Builder:
    """Compiles translation units in parallel into a scratch directory."""

    def __init__(self, work, flags, cxx='clang++', opt='-O1'):
        self.work, self.flags, self.cxx, self.opt = work, flags, cxx, opt
        self.units = []

    def add(self, src, *extra, name=None):
        obj = os.path.join(self.work, (name or os.path.basename(src)) + '.o')
        self.units.append((src, obj, list(extra)))
        return obj

    def lib(self, parts='4', json_=True, names=None):
        for n in names or ['GraphQLService', 'Validation', 'Schema', 'Introspection', 'IntrospectionSchema',
                           'GraphQLResponse', 'Base64'] + (['JSONResponse'] if json_ else []):
            self.add(f'{REPO}/src/{n}.cpp')
        if parts is not None:
            for p in parts.split(','):
                self.add(f'{REPO}/src/SyntaxTree.cpp', '-DGRAPHQL_VERIFY_PARSE_PARTS=' + p, name='SyntaxTree' + p)
        return self

    def compile_one(self, unit):
        src, obj, extra = unit
        base = [self.cxx, '-std=c++17', self.opt, '-g1', '-w', '-I', f'{REPO}/include', '-I', HARNESS] + self.flags
        p = subprocess.run(base + extra + ['-c', src, '-o', obj], capture_output=True, text=True)
        if p.returncode and any('PARSE_PARTS' in e for e in extra):
            # The hook may be gone: the complete file has the same interface.
            p = subprocess.run(base + ['-c', src, '-o', obj], capture_output=True, text=True)
        return unit, p

    def compile(self):
        weight = {'SyntaxTree.cpp': 0, 'GraphQLService.cpp': 1, 'IntrospectionSchema.cpp': 2}
        units = sorted(self.units, key=lambda u: weight.get(os.path.basename(u[0]), 3 if '/repo/' in u[0] else 1))
        with concurrent.futures.ThreadPoolExecutor(CPUS) as pool:
            for unit, p in pool.map(self.compile_one, units):
                if p.returncode:
                    raise NoAnswer(f'compiling {unit[0]} failed:\n' + p.stderr[-4000:])
        self.compiled = True

    def link(self, exe, *libs, only=None):
        if not getattr(self, 'compiled', False):
            self.compile()
        out = os.path.join(self.work, exe)
        p = subprocess.run([self.cxx] + self.flags + [u[1] for u in self.units if not only or os.path.basename(u[1])[:-2] in only] +
                           ['-Wl,--allow-multiple-definition', '-o', out, '-lpthread'] + list(libs),
                           capture_output=True, text=True)
        if p.returncode:
            raise NoAnswer('linking failed:\n' + p.stderr[-4000:])
        return out


class Run:
    """One invocation of a check: collects what all of the shards of all of its binaries saw."""

    def __init__(self, prop, tier, seed, work):
        self.prop, self.tier, self.seed, self.work = prop, tier, seed, work
        self.evaluations = 0
        self.distinct = set()
        self.counters, self.samples, self.violations, self.findings = {}, [], [], {}
        self.notes = {}
        self.lock = threading.RLock()

    def quick(self, q, t):
        return t if self.tier == 'thorough' else q

    def violation(self, what, detail, replay_cmd=''):
        with self.lock:
            self.violations.append((what, detail, replay_cmd))

    def merge(self, data, replay_cmd):
        self.evaluations += data.get('evaluations', 0)
        self.distinct.update(data.get('distinct', []))
        for k, v in data.get('counters', {}).items():
            self.counters[k] = self.counters.get(k, 0) + v
        for s in data.get('samples', []):
            if len(self.samples) < 4:
                self.samples.append(s)
        for v in data.get('violations', []):
            self.violation(v['what'], v['detail'], f"{replay_cmd} --only {v['case']}")
        for k, v in data.get('findings', {}).items():
            self.findings.setdefault(k, v)

    @property
    def only(self):
        return ONLY

    def count(self, key, by=1):
        with self.lock:
            self.counters[key] = self.counters.get(key, 0) + by

    def execute(self, exe, cases, index, seed, args=(), timeout=300):
        """One process for one generated program; index is that of the program."""
        out = f'{exe}.json'
        cmd = [exe, '--prop', self.prop, '--seed', str(seed), '--cases', str(cases), '--out', out] + list(args)
        if ONLY is not None:
            cmd.append('--verbose')
        replay = f'python3 {VERIF}/check.py {self.prop} {self.tier} --only {index}'
        for attempt in range(2):
            if os.path.exists(out):
                os.unlink(out)
            try:
                p = subprocess.run(cmd, capture_output=True, timeout=timeout, env=dict(os.environ, **ENV), cwd=self.work)
                rc, err = p.returncode, p.stderr.decode('utf8', 'replace')
                break
            except subprocess.TimeoutExpired as e:
                rc, err = 'timeout', (e.stderr or b'').decode('utf8', 'replace')
        if ONLY is not None:
            print(err[-6000:])
        data = json.load(open(out)) if os.path.exists(out) else None
        trace = open(out + '.trace', errors='replace').read() if os.path.exists(out + '.trace') else ''
        with self.lock:
            if data:
                for v in data.get('violations', []):
                    self.violation(v['what'], v['detail'], replay)
                data['violations'] = []
                self.merge(data, replay)
            if rc in (0, 1) and data is not None:
                return
            if rc == 2:
                raise NoAnswer('the harness failed: ' + err[-3000:])
            self.violation(f'no answer within {timeout} s, twice' if rc == 'timeout' else f'the process ended with status {rc}: ' + ' '.join(
                l.strip() for l in err.splitlines() if 'ERROR: ' in l or 'runtime error' in l or 'terminate called' in l)[:500], f'{trace}\n{err[-8000:]}', replay)

    def shards(self, exe, cases, args=(), shards=None, timeout=600, env=None, jobs=None, label=''):
        shards = shards or CPUS
        environ = dict(os.environ, **ENV)
        environ.update(env or {})

        def one(i, attempt=0):
            out = os.path.join(self.work, f'out{label}-{i}.json')
            for ext in ('', '.cur', '.trace'):
                if os.path.exists(out + ext):
                    os.unlink(out + ext)
            cmd = [exe, '--prop', self.prop, '--seed', str(self.seed), '--shard', str(i), '--shards', str(shards),
                   '--cases', str(cases), '--out', out] + list(args)
            if ONLY is not None:
                cmd += ['--only', str(ONLY), '--verbose']
            try:
                p = subprocess.run(cmd, capture_output=True, timeout=timeout, env=environ, cwd=self.work)
                rc, err = p.returncode, p.stderr.decode('utf8', 'replace')
            except subprocess.TimeoutExpired as e:
                if attempt == 0:
                    return one(i, 1)
                rc, err = 'timeout', (e.stderr or b'').decode('utf8', 'replace')
            data = None
            if os.path.exists(out):
                data = json.load(open(out))
            cur = open(out + '.cur').read().strip() if os.path.exists(out + '.cur') else '?'
            trace = open(out + '.trace', errors='replace').read() if os.path.exists(out + '.trace') else ''
            return i, rc, err, data, cur, trace

        with concurrent.futures.ThreadPoolExecutor(jobs or CPUS) as pool:
            for i, rc, err, data, cur, trace in pool.map(one, range(1 if ONLY is not None else shards)):
                replay = f'python3 {VERIF}/check.py {self.prop} {self.tier}'
                if ONLY is not None:
                    print(err[-6000:])
                if data:
                    self.merge(data, replay)
                if rc in (0, 1) and data is not None:
                    continue
                if rc == 2:
                    raise NoAnswer('the harness failed: ' + err[-3000:])
                if rc == 'timeout':
                    what = f'no answer within {timeout} s, twice'
                else:
                    what = f'the process ended with status {rc}'
                    for line in err.splitlines():
                        if 'ERROR: ' in line or 'runtime error' in line or 'WARNING: ThreadSanitizer' in line or 'terminate called' in line:
                            what += ': ' + line.strip()
                            break
                self.violation(what, f'case {cur}\n{trace}\n{err[-8000:]}', f'{replay} --only {cur}')


def known_findings(prop):
    """Lines 'finding: property=P06 id=<probe> <what fails>' of the committed file."""
    found = {}
    with open(os.path.join(VERIF, 'known_findings.txt')) as f:
        for line in f:
            if line.startswith('finding: '):
                parts = line[len('finding: '):].strip().split(' ', 2)
                if parts[0] == f'property={prop}':
                    found[parts[1].split('=', 1)[1]] = parts[2]
    return found


def main():
    global ONLY
    prop, tier = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    rest = sys.argv[3:]
    ONLY = int(rest[rest.index('--only') + 1]) if '--only' in rest else None
    keep = '--keep' in rest
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    started = time.time()
    work = tempfile.mkdtemp(prefix=f'verif-{prop}-')
    import checks
    spec = checks.CHECKS[prop]
    run = Run(prop, tier, seed, work)
    scale = rest[rest.index('--scale') + 1] if '--scale' in rest else None
    run.keep = keep
    run.scale = float(scale) if scale else 1.0
    try:
        try:
            spec['run'](run)
        except NoAnswer as e:
            print(f'no answer: {e}', file=sys.stderr)
            return 2
        listed = known_findings(prop)
        for probe, what in sorted(run.findings.items()):
            if probe in listed:
                print(f'KNOWN-FINDING: property={prop} {listed[probe]}')
            else:
                run.violation(f'probe {probe}: {what}', '', f'python3 {VERIF}/check.py {prop} {tier}')
        evidence = {
            'property': prop, 'tier': tier, 'seed': seed, 'level': spec.get('level', 'exploration'),
            'coverage': {
                'evaluations': run.evaluations,
                'distinct_nontrivial': len(run.distinct),
                'rule': spec['rule'],
                'samples': run.samples or ['(none)'],
                'observed': run.counters,
            },
            'assumptions': spec.get('assumptions', []),
            'wall_s': round(time.time() - started, 2),
            'violations': len(run.violations),
        }
        evidence['coverage'].update(run.notes)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        path = os.path.join(VERIF, 'evidence', prop + '.json')
        if ONLY is None:
            with open(path + '.tmp', 'w') as f:
                json.dump(evidence, f, indent=1)
            os.replace(path + '.tmp', path)
        for n, (what, detail, cmd) in enumerate(run.violations[:5]):
            replay = os.path.join(VERIF, 'evidence', f'{prop}-violation-{n}.txt')
            with open(replay, 'w', errors='replace') as f:
                f.write(f'{what}\n\nseed={seed} tier={tier}\nreplay: VERIF_SEED={seed} {cmd}\n\n{detail}\n')
            print(f'{what[:1000]}')
            print(f'VIOLATION property={prop} replay={replay}')
        print(f'{prop} {tier}: {run.evaluations} evaluations, {len(run.distinct)} distinct, '
              f'{len(run.violations)} violations, {time.time() - started:.1f} s')
        if keep:
            print(json.dumps(run.counters, indent=1))
        return 1 if run.violations else 0
    finally:
        if keep:
            print('kept', work)
        else:
            shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
    sys.modules['check'] = sys.modules['__main__']
    sys.exit(main())
