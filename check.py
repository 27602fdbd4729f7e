#!/usr/bin/env python3
"""check.py <property> [--thorough]

Decides one property: TLC explores the implementation shaped models (refinement of the abstract
specification) and prints their transitions; the harness (built from /repo, with and without debug
assertions) replays them and random histories on the real containers and records what it sees; TLC
judges every distinct record against the specification.  See DESIGN.md.
Exit: 0 held, 1 violation (line VIOLATION property=.. replay=..), 2 the check itself failed.
"""
import json, os, re, subprocess, sys, time, threading, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'tools'))
from suites import SUITES   # noqa: E402

BUILD = os.path.join(VERIF, '.build')
SPEC = os.path.join(VERIF, 'spec')
HARNESS = os.path.join(VERIF, 'harness')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
ENVOPT = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=os.path.join(BUILD, 'target'))
for v in ('RUSTFLAGS', 'CARGO_BUILD_TARGET', 'CARGO_ENCODED_RUSTFLAGS'):
    ENVOPT.pop(v, None)
CORES = os.cpu_count() or 4


class ToolError(Exception):
    pass


def log(*a):
    print('[%6.1fs]' % (time.time() - T0), *a, flush=True)


T0 = time.time()


def tlc(module, cfg, workdir, env=None, heap='4g', timeout=800, expect=None, workers=None):
    """run TLC on spec/<module>.tla or workdir/<module>.tla; returns its output; expect: the invariant that must fail"""
    path = os.path.join(workdir, module + '.tla')
    if not os.path.exists(path):
        path = os.path.join(SPEC, module + '.tla')
    cfgp = os.path.join(workdir, module + '.cfg')
    open(cfgp, 'w').write(cfg)
    outp = os.path.join(workdir, module + '.out')
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss400m', '-Djava.io.tmpdir=' + workdir, '-DTLA-Library=' + SPEC, '-cp', JARS, 'tlc2.TLC',
           '-workers', str(workers or CORES), '-metadir', os.path.join(workdir, module + '.states'), '-config', cfgp]
    cmd += [path]
    with open(outp, 'w') as o:
        try:
            r = subprocess.run(cmd, stdout=o, stderr=subprocess.STDOUT, env=dict(os.environ, **(env or {})), cwd=workdir, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError('TLC timed out on ' + module)
    shutil.rmtree(os.path.join(workdir, module + '.states'), ignore_errors=True)
    text = open(outp).read()
    if expect:
        if 'Error: Invariant %s is violated.' % expect not in text:
            raise ToolError('TLC did not find the expected violation of %s in %s' % (expect, workdir))
        return text, outp
    if r.returncode != 0 or 'Model checking completed. No error has been found.' not in text:
        tail = '\n'.join(l for l in text.splitlines() if not l.startswith('"<<'))[-3000:]
        raise ToolError('TLC failed on %s (exit %d):\n%s' % (module, r.returncode, tail))
    return text, outp


def tlc_stats(text):
    m = re.search(r'(\d+) states generated, (\d+) distinct states found', text)
    return (int(m.group(1)), int(m.group(2))) if m else (0, 0)


def tla(v):
    """python value -> TLA+ (tuples/lists: sequences, sets: sets)"""
    if isinstance(v, bool):
        return 'TRUE' if v else 'FALSE'
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, (list, tuple)):
        return '<<' + ', '.join(map(tla, v)) + '>>'
    if isinstance(v, (set, frozenset)):
        return '{' + ', '.join(map(tla, sorted(v, key=repr))) + '}'
    raise TypeError(v)


class Check:
    def __init__(self, pid, thorough):
        self.pid, self.thorough = pid, thorough
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.work = os.path.join(BUILD, 'run', pid)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, model_runs=[], impl_steps=0,
                        distinct_records=0, ops={}, samples=[])
        self.violations = []

    # ---------------------------------------------------------------- building
    def build(self, bins):
        errs = []

        def one(profile):
            cmd = ['cargo', 'build', '--offline', '-q', '--manifest-path', os.path.join(HARNESS, 'Cargo.toml')]
            cmd += ['--release'] if profile == 'release' else []
            cmd += ['--features', 'deep'] if self.thorough else []
            for b in bins:
                cmd += ['--bin', b]
            r = subprocess.run(cmd, env=ENVOPT, capture_output=True, text=True, timeout=800)
            if r.returncode:
                errs.append(r.stderr[-4000:])
        # the two profiles use different directories below the target directory and build side by side
        ts = [threading.Thread(target=one, args=(p,)) for p in ('dev', 'release')]
        [t.start() for t in ts]
        [t.join() for t in ts]
        if errs:
            raise ToolError('the harness does not build against /repo:\n' + errs[0])
        log('harness built')

    # ---------------------------------------------------------------- models
    def model(self, name, module, defs, cfg, expect=None):
        d = os.path.join(self.work, name)
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, 'MC.tla'), 'w').write(
            '---- MODULE MC ----\nEXTENDS %s\n%s\n====\n' % (module, '\n'.join('%s == %s' % kv for kv in defs.items())))
        text, outp = tlc('MC', cfg, d, expect=expect, workers=max(2, CORES // 2))
        if expect:
            self.cov['model_runs'].append(dict(model=module, name=name, finds='violation of %s, as it must' % expect))
            log('model %s/%s: %s is violated, as it must be' % (module, name, expect))
            return outp
        gen, dist = tlc_stats(text)
        self.cov['states'] += dist
        self.cov['transitions'] += gen
        self.cov['model_runs'].append(dict(model=module, name=name, states=dist, transitions=gen))
        log('model %s/%s: %d states, %d transitions, no error' % (module, name, dist, gen))
        return outp

    def prove(self, m):
        """an inductive step for numbers of any size: Apalache on spec/<module>.tla"""
        d = os.path.join(self.work, m['name'])
        os.makedirs(d, exist_ok=True)
        cmd = ['apalache-mc', 'check', '--out-dir=' + d, '--init=' + m['init'], '--next=' + m['next'], '--inv=Inv', '--length=%d' % m['length'],
               os.path.join(SPEC, m['module'] + '.tla')]
        env = dict(os.environ, JVM_ARGS='-Xmx3g -Djava.io.tmpdir=' + d)
        for again in (True, False):
            try:
                r = subprocess.run(cmd, capture_output=True, text=True, cwd=d, env=env, timeout=850 if not self.thorough else 3000)
            except subprocess.TimeoutExpired:
                raise ToolError('Apalache timed out on ' + m['name'])
            out = r.stdout + r.stderr
            if r.returncode == 0 and 'The outcome is: NoError' in out:
                break
            if not again or 'Found' in out or 'violated' in out:
                raise ToolError('Apalache does not prove %s:\n%s' % (m['name'], out[-2000:]))
        self.cov['model_runs'].append(dict(model=m['module'], name=m['name'], proved='from %s, %s preserves Inv, for numbers of any size' % (m['init'], m['next'])
                                           if m['length'] else '%s implies Inv, for numbers of any size' % m['init']))
        log('model %s/%s: proved for numbers of any size' % (m['module'], m['name']))

    # ---------------------------------------------------------------- harness
    def run_bin(self, binary, profile, graph, mode, extra, tag):
        exe = os.path.join(BUILD, 'target', 'release' if profile == 'release' else 'debug', binary)
        out = os.path.join(self.work, '%s-%s.ndjson' % (tag, profile))
        cmd = [exe, '--out', out, '--seed', str(self.seed), '--mode', mode, '--threads', str(CORES)] + extra
        for g in graph:
            cmd += ['--graph', g]
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, timeout=780 if not self.thorough else 7000, errors='replace')
        except subprocess.TimeoutExpired:
            raise ToolError('harness timed out: ' + ' '.join(cmd))
        txt = r.stdout
        if r.returncode != 0:
            line = next((l for l in txt.splitlines() if l.startswith(('CRASH', 'HANG', 'HARNESS-ERROR'))), None)
            if line is None and r.returncode == 101:
                raise ToolError('harness failed: %s\n%s%s' % (' '.join(cmd), txt[-2000:], r.stderr[-2000:]))
            what = line or 'process ended with status %d' % r.returncode
            self.violate(dict(kind='crash', profile=profile, binary=binary, what=what, command=' '.join(cmd)))
            return None
        for l in txt.splitlines():
            if l.startswith('STEPS'):
                self.cov['impl_steps'] += int(l.split()[1])
            if l.startswith('OPS'):
                for kv in l.split()[1:]:
                    k, v = kv.split('=')
                    self.cov['ops'][k] = self.cov['ops'].get(k, 0) + int(v)
            if l.startswith('WALKS'):
                self.cov['traces_validated_against_impl'] += int(l.split()[1])
        return out, cmd

    # ---------------------------------------------------------------- judging
    def judge(self, module, outs, want, tag, consts=''):
        """outs: list of (profile, file, cmd).  All distinct records of all runs are judged once."""
        recs, where = [], {}
        for prof, f, cmd in outs:
            with open(f) as fh, open(f + '.wit') as wh:
                for line, wit in zip(fh, wh):
                    line = line.rstrip('\n')
                    if line not in where:
                        where[line] = []
                        recs.append(line)
                    if len(where[line]) < 2:
                        where[line].append((prof, wit.strip(), cmd))
        if not recs:
            raise ToolError('no records from ' + tag)
        d = os.path.join(self.work, 'judge-' + tag)
        os.makedirs(d, exist_ok=True)
        tf = os.path.join(d, 'trace.ndjson')
        open(tf, 'w').write('\n'.join(recs) + '\n')
        blk = max(20, min(1000, len(recs) // (CORES * 8) + 1))
        text, _ = tlc(module, 'CONSTANT Block = %d\n%s\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n' % (blk, consts), d,
                      env={'TRACE': tf}, heap='16g')
        self.cov['distinct_records'] += len(recs)
        bad = re.findall(r'^"?<<\\?"BAD\\?", (\d+), \{([^}]*)\}(.*)$', text, re.M)
        n = 0
        for i, classes, rest in bad:
            classes = set(re.findall(r'\w+', classes))
            rec = json.loads(recs[int(i) - 1])
            hit = {c for c in classes if want(rec, c)}
            if hit:
                n += 1
                self.violate(dict(kind='record', judged_by=module, classes=sorted(hit), observed=rec, allowed=rest.strip(', ')[:3000],
                                  seen_in=[dict(profile=p, witness=w, command=' '.join(c)) for p, w, c in where[recs[int(i) - 1]]]))
        log('%s judged %d distinct records of %s: %d not allowed by the specification (%d of them concern %s)'
            % (module, len(recs), tag, len(bad), n, self.pid))
        for k in (0, len(recs) // 3, 2 * len(recs) // 3, len(recs) - 1):
            if len(self.cov['samples']) < 12:
                self.cov['samples'].append(json.loads(recs[k]))

    def violate(self, v):
        v['property'] = self.pid
        if v['kind'] == 'record':
            w = v['seen_in'][0]
            m = re.match(r'job=(\S+) walk=(\d+)', w['witness'])
            if m:
                v['replay_command'] = '%s --job %s --walk %s   (after building; the graph file is rewritten by every run)' % (w['command'], m.group(1), m.group(2))
        self.violations.append(v)

    # ---------------------------------------------------------------- main
    def main(self):
        suites = SUITES[self.pid](self.thorough)
        bins = sorted({s['bin'] for s in suites})
        graphs = {}
        errs = []

        def models():
            try:
                todo = {m['name']: m for s in suites for m in s.get('models', [])}
                with ThreadPoolExecutor(3) as ex:
                    done = dict(zip(todo, ex.map(lambda m: self.prove(m) if 'init' in m else self.model(m['name'], m['module'], m['defs'], m['cfg'], m.get('expect')), todo.values())))
                for s in suites:
                    graphs[s['name']] = [done[m['name']] for m in s.get('models', []) if m.get('emit', True)]
            except Exception as e:   # noqa
                errs.append(e)
        t = threading.Thread(target=models)
        t.start()
        try:
            self.build(bins)
        finally:
            t.join()
        if errs:
            raise errs[0]
        byj = {}
        for s in suites:
            for prof in s.get('profiles', ('dev', 'release')):
                r = self.run_bin(s['bin'], prof, graphs[s['name']], s['mode'], s.get('args', []), s['name'])
                if r:
                    byj.setdefault((s['judge'], s.get('consts', '')), []).append((s, prof, r[0], r[1]))
            log('suite %s ran' % s['name'])
        for (module, consts), rs in byj.items():
            # suites sharing a judge are judged in one TLC run
            wants = [s['want'] for s, *_ in rs]
            self.judge(module, [(p, f, c) for _, p, f, c in rs], lambda rec, c: any(w(rec, c) for w in wants), module.lower(), consts)
        return self.report()

    def report(self):
        known = []
        kf = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
        if os.path.exists(kf):
            for l in open(kf):
                m = re.match(r'finding: property=(\w+) match=(\S+) (.*)', l)
                if m and m.group(1) == self.pid:
                    known.append((m.group(2), m.group(3).strip()))
        new = []
        shown = set()
        for v in self.violations:
            txt = json.dumps(v.get('observed', v), sort_keys=True).replace(' ', '')
            k = next((k for k in known if k[0] in txt), None)
            if k is None:
                new.append(v)
            elif k not in shown:
                shown.add(k)
                print('KNOWN-FINDING: property=%s %s' % (self.pid, k[1]))
        ev = dict(property=self.pid, tier='thorough' if self.thorough else 'quick', seed=self.seed, level='model_checking',
                  coverage=self.cov, violations=len(new), wall_s=round(time.time() - T0, 1),
                  assumptions=['containers are polymorphic in the element type: element identities may be renamed between steps',
                               'TLC, rustc and the ledger of tracked elements are trusted'])
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w'), indent=1)
        if new:
            rd = os.path.join(VERIF, 'evidence', 'replay')
            os.makedirs(rd, exist_ok=True)
            p = os.path.join(rd, self.pid + '.json')
            json.dump(new[:200], open(p, 'w'), indent=1)
            for v in new[:5]:
                print('  ' + json.dumps({k: v[k] for k in ('kind', 'classes', 'observed', 'allowed', 'what') if k in v})[:600])
            print('VIOLATION property=%s replay=%s' % (self.pid, p))
            return 1
        log('property %s held on everything explored: %d model states, %d transitions, %d steps of the real code, %d distinct records judged'
            % (self.pid, self.cov['states'], self.cov['transitions'], self.cov['impl_steps'], self.cov['distinct_records']))
        return 0


def main():
    pid = sys.argv[1]
    thorough = '--thorough' in sys.argv[2:] or os.environ.get('VERIF_TIER') == 'thorough'
    try:
        c = Check(pid, thorough)
        rc = c.main()
    except ToolError as e:
        print('ERROR', e)
        rc = 2
    sys.exit(rc)


if __name__ == '__main__':
    main()
