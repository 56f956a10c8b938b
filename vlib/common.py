"""Shared machinery: building the harness from /repo, running TLC, evidence."""
import concurrent.futures as cf
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
SPEC = os.path.join(VERIF, 'spec')
IMPORT = 'github.com/johnnadratowski/golang-neo4j-bolt-driver'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick') or 'quick'
CORES = os.cpu_count() or 4

TLA_JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class MachineryError(Exception):
    """the check could not give an answer"""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def rng(*salt):
    h = hashlib.sha256(repr((SEED,) + salt).encode()).digest()
    return random.Random(int.from_bytes(h[:8], 'big'))


def scratch(name):
    d = os.path.join(BUILD, 'run', '%s-%d' % (name, os.getpid()))
    os.makedirs(d, exist_ok=True)
    return d


# --------------------------------------------------------------------- build
def go_env():
    env = dict(os.environ)
    for k in ('NEO4J_BOLT', 'ENSURE_NEO4J_BOLT', 'RECORD_OUTPUT', 'BOLT_DRIVER_LOG', 'GOROOT', 'GOWORK'):
        env.pop(k, None)
    env['PATH'] = '/opt/veriftools/go1.27.3/bin:' + env['PATH']
    env.update(GO111MODULE='off', GOENV='off', GOFLAGS='', GOTOOLCHAIN='local',
               GOPATH=os.path.join(BUILD, 'gopath'), GOCACHE=os.path.join(BUILD, 'gocache'))
    return env


def prepare():
    src = os.path.join(BUILD, 'gopath', 'src')
    want = {os.path.join(src, IMPORT): REPO, os.path.join(src, 'verifharness'): os.path.join(VERIF, 'harness')}
    for link, target in want.items():
        os.makedirs(os.path.dirname(link), exist_ok=True)
        if os.path.islink(link) and os.readlink(link) != target:
            os.unlink(link)
        if not os.path.islink(link):
            os.symlink(target, link)
    cache = os.path.join(BUILD, 'gocache')
    if not os.path.isdir(cache):
        if os.path.isdir('/opt/vp/gocache'):
            tmp = cache + '.%d' % os.getpid()
            shutil.copytree('/opt/vp/gocache', tmp, symlinks=True)
            try:
                os.rename(tmp, cache)
            except OSError:
                shutil.rmtree(tmp)
        else:
            os.makedirs(cache, exist_ok=True)


def build_harness(race=False, recorder=False):
    """compile the harness with the driver from /repo's working tree"""
    prepare()
    out = os.path.join(BUILD, 'harness-race' if race else 'harness')
    tmp = out + '.%d' % os.getpid()
    cmd = ['go', 'build', '-o', tmp] + (['-race'] if race else [])
    if recorder:
        # a file that makes the recorder accessible, not in /repo
        o = os.path.join(scratch('bin'), 'overlay.json')
        pkg = os.path.join(BUILD, 'gopath', 'src', 'github.com', 'johnnadratowski', 'golang-neo4j-bolt-driver')
        src = os.path.join(VERIF, 'harness', 'overlay', 'verif_recorder.go.txt')
        json.dump({'Replace': {os.path.join(d, 'zz_verif_recorder.go'): src for d in (pkg, REPO)}}, open(o, 'w'))
        cmd += ['-overlay', o, '-tags', 'verifrec']
    cmd += ['verifharness']
    p = subprocess.run(cmd, env=go_env(), capture_output=True, text=True, cwd=VERIF)
    if p.returncode:
        raise MachineryError('harness build failed:\n' + p.stdout + p.stderr)
    mine = os.path.join(scratch('bin'), os.path.basename(out))
    os.replace(tmp, mine)
    return mine


def race_env(log_path):
    env = go_env()
    if log_path:
        env['GORACE'] = 'halt_on_error=0 exitcode=0 history_size=3 log_path=' + log_path
    return env


def race_reports(log_path):
    """what the race detector wrote"""
    d, base = os.path.split(log_path)
    out = []
    for f in sorted(os.listdir(d)):
        if f.startswith(base + '.'):
            text = open(os.path.join(d, f), errors='replace').read()
            out += ['WARNING: DATA RACE' + x for x in text.split('WARNING: DATA RACE')[1:]]
    return out


# ----------------------------------------------------------------------- TLC
class TLCResult:
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
        self.generated = int(m.group(1)) if m else 0
        self.distinct = int(m.group(2)) if m else 0
        self.ok = rc == 0 and 'No error has been found' in out
        self.violated = re.findall(r'(?:Invariant|property|Property) (\w+) (?:is|was) violated', out)


def fmt(v):
    if isinstance(v, bool):
        return 'TRUE' if v else 'FALSE'
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, (set, frozenset)):
        return '{' + ', '.join(sorted(fmt(x) for x in v)) + '}'
    raise TypeError(v)


def tlc(module, cfg, consts=None, env=None, workers=1, heap='2g', timeout=800, name=None, keep_out=None, stack='16m', args=()):
    """run TLC on a module of /verif/spec; cfg is the config text without constants"""
    d = scratch('tlc')
    name = name or module
    base = os.path.join(d, '%s-%s' % (name, hashlib.md5(repr((cfg, sorted((consts or {}).items(), key=str), time.time(), os.urandom(4))).encode()).hexdigest()[:8]))
    text = cfg + '\n'
    if consts:
        text += 'CONSTANTS\n' + ''.join('  %s = %s\n' % (k, fmt(v)) for k, v in consts.items())
    cfgf = base + '.cfg'
    open(cfgf, 'w').write(text)
    e = dict(os.environ)
    e.update(env or {})
    os.makedirs(base + '.md', exist_ok=True)
    cmd = ['java', '-Djava.io.tmpdir=' + base + '.md', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2',
           '-Xmx' + heap, '-Xss' + stack, '-cp', TLA_JARS, 'tlc2.TLC',
           '-workers', str(workers), '-metadir', base + '.md', '-noGenerateSpecTE', '-config', cfgf] + list(args) + [
           os.path.join(SPEC, module + '.tla')]
    outf = keep_out or base + '.out'
    try:
        with open(outf, 'w') as fo:
            p = subprocess.run(cmd, stdout=fo, stderr=subprocess.STDOUT, env=e, timeout=timeout, cwd=d)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        raise MachineryError('TLC timed out on %s' % name)
    finally:
        shutil.rmtree(base + '.md', ignore_errors=True)
    if keep_out:
        # huge output: only the lines that are not graph edges
        out = ''.join(x for x in open(outf, errors='replace') if not x.startswith('"E '))
    else:
        out = open(outf, errors='replace').read()
        os.unlink(outf)
    return TLCResult(rc, out)


def parallel(fn, items, workers=None):
    items = list(items)
    if not items:
        return []
    with cf.ThreadPoolExecutor(max_workers=workers or CORES) as ex:
        return list(ex.map(fn, items))


# ------------------------------------------------------------------ verdicts
KNOWN = os.path.join(VERIF, 'known_findings.txt')


class Check:
    def __init__(self, prop, level):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.violations = []
        self.known = []
        self.coverage = {}
        self.assumptions = []
        self.samples = []

    def count(self, key, n):
        self.coverage[key] = self.coverage.get(key, 0) + n

    def violation(self, what, replay):
        """replay: JSON-able description that reproduces the violation"""
        d = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%d.json' % (self.prop, len(self.violations) + 1))
        with open(path, 'w') as f:
            json.dump({'property': self.prop, 'what': what, 'replay': replay}, f, indent=1, default=str)
        self.violations.append((what, path))

    def known_finding(self, what):
        if what not in self.known:
            self.known.append(what)

    def finish(self):
        cov = dict(self.coverage)
        cov['samples'] = self.samples[:5]
        ev = {'property': self.prop, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick', 'seed': SEED,
              'level': self.level, 'coverage': cov, 'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.violations)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        for k in self.known:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, k))
        for what, path in self.violations:
            print('# ' + what[:500])
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
        sys.stdout.flush()
        return 1 if self.violations else 0


def cleanup():
    run = os.path.join(BUILD, 'run')
    for d in os.listdir(run) if os.path.isdir(run) else []:
        if d.endswith('-%d' % os.getpid()):
            shutil.rmtree(os.path.join(run, d), ignore_errors=True)
