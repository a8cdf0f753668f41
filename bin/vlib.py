"""Shared machinery of the checks: build the harness, run TLC on models,
generate stimuli from specifications, execute them on the real code, validate
the recorded traces against the specifications, write the evidence."""
import collections, concurrent.futures, glob, hashlib, json, os, random, re, shutil, subprocess, sys, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECS = os.path.join(ROOT, 'specs')
BUILD = os.path.join(ROOT, 'build')
TLC = ['java', '-Xmx3g', '-Xss16m', '-XX:+UseSerialGC', '-cp',
       '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar', 'tlc2.TLC']


class ToolError(Exception):
    pass


def tla(v):
    """A Python value as a TLA+ constant expression (cfg syntax)."""
    if isinstance(v, bool):
        return 'TRUE' if v else 'FALSE'
    if isinstance(v, int):
        return str(v)
    if isinstance(v, (set, frozenset, list, tuple)):
        return '{' + ', '.join(sorted(tla(x) for x in v)) + '}'
    if v.startswith('\\'):       # a model value
        return v[1:]
    return '"%s"' % v


def refresh():
    """Cargo goes by file times: what it built from other sources is dropped when the sources themselves differ."""
    manifest = open(os.path.join(ROOT, 'harness', 'Cargo.toml')).read()
    repo = os.path.dirname(re.search(r'paladin-core = \{ path = "([^"]+)"', manifest)[1])
    h = hashlib.sha256(repo.encode())
    for d, ds, fs in sorted(os.walk(repo)):
        ds[:] = [x for x in ds if x not in ('target', '.git')]
        for f in sorted(fs):
            if f.endswith(('.rs', '.toml', '.lock')):
                h.update((os.path.join(d, f) + '\0').encode() + open(os.path.join(d, f), 'rb').read())
    mark = os.path.join(BUILD, 'target', 'sources')
    if not os.path.exists(mark) or open(mark).read() != h.hexdigest():
        for f in glob.glob(os.path.join(BUILD, 'target', 'debug', '.fingerprint', 'paladin-*')):
            shutil.rmtree(f, ignore_errors=True)
        os.makedirs(os.path.dirname(mark), exist_ok=True)
        open(mark, 'w').write(h.hexdigest())


class Check:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(os.environ.get('VERIF_SEED', '1') or '1')
        self.quick = self.tier != 'thorough'
        self.rng = random.Random(self.seed * 1000003 + int(prop[1:]))
        self.t0 = time.time()
        self.work = os.path.join(BUILD, 'work', '%s-%d' % (prop, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.replays = os.path.join(BUILD, 'replay')
        os.makedirs(self.replays, exist_ok=True)
        self.violations = []
        self.findings = {}
        self.n = 0
        self.cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': [],
                    'models': [], 'generated': [], 'harness': [], 'validated': [], 'events': {}}
        self.pool = concurrent.futures.ThreadPoolExecutor(8)
        self.notes = []
        self.built = None

    def log(self, *a):
        print('[%6.1fs]' % (time.time() - self.t0), *a, flush=True)

    def fresh(self, stem):
        self.n += 1
        return os.path.join(self.work, '%s%d' % (stem, self.n))

    # ---- building ---------------------------------------------------------
    def build(self, crate='harness'):
        if not os.path.exists(os.path.join(ROOT, crate, 'Cargo.toml')):
            return
        refresh()
        d = os.path.join(ROOT, crate)
        env = dict(os.environ, RUSTFLAGS='--cfg paladin_verif --cfg tokio_unstable', CARGO_NET_OFFLINE='true',
                   CARGO_TARGET_DIR=os.path.join(BUILD, 'target'), CARGO_TERM_COLOR='never',
                   CARGO_INCREMENTAL='0', RUSTC_WRAPPER='')
        for k in ('CARGO_ENCODED_RUSTFLAGS',):
            env.pop(k, None)
        lock = os.path.join(d, 'Cargo.lock')
        saved = open(lock, 'rb').read() if os.path.exists(lock) else None
        try:
            r = subprocess.run(['cargo', 'build', '--offline', '-q'], cwd=d, env=env, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, timeout=800)
        finally:
            if saved is not None and open(lock, 'rb').read() != saved:
                open(lock, 'wb').write(saved)
        if r.returncode:
            raise ToolError('cargo build failed:\n' + r.stdout[-4000:])
        self.log('built', crate)

    def start_build(self, crate='harness'):
        self.built = self.pool.submit(self.build, crate)

    def wait_build(self):
        if self.built is None:
            self.start_build()
        self.built.result()

    def binary(self, name='vp-harness'):
        return os.path.join(BUILD, 'target', 'debug', name)

    # ---- TLC --------------------------------------------------------------
    def tlc(self, module, cfg, args=(), env=None, timeout=400, workers=2, dfs=False):
        path = self.fresh('cfg') + '.cfg'
        open(path, 'w').write(cfg)
        meta = self.fresh('meta')
        e = dict(os.environ, **(env or {}))
        out = self.fresh('tlc') + '.out'
        cmd = ['timeout', '-k', '5', str(timeout), *TLC[:1], *(['-Dtlc2.tool.queue.IStateQueue=StateDeque'] if dfs else []), *TLC[1:], '-noGenerateSpecTE', '-metadir', meta, '-workers', str(workers),
               '-config', path, *args, module + '.tla']
        with open(out, 'w') as f:
            rc = subprocess.run(cmd, cwd=SPECS, env=e, stdout=f, stderr=subprocess.STDOUT).returncode
        shutil.rmtree(meta, ignore_errors=True)
        text = open(out, errors='replace').read()
        m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', text)
        gen, dist = (int(x.replace(',', '')) for x in m[-1]) if m else (0, 0)
        return rc, text, gen, dist

    @staticmethod
    def cfg(consts=None, spec='Spec', inv=(), props=(), extra=''):
        s = 'SPECIFICATION %s\n' % spec
        if consts:
            s += 'CONSTANTS\n' + ''.join('  %s %s\n' % (k, v[1] if isinstance(v, tuple) and v[0] == 'raw' else '= ' + tla(v))
                                          for k, v in consts.items())
        for x in inv:
            s += 'INVARIANT %s\n' % x
        for x in props:
            s += 'PROPERTY %s\n' % x
        return s + 'CHECK_DEADLOCK FALSE\n' + extra

    def model(self, module, consts=None, spec='Spec', inv=(), props=(), extra='', expect=True, label='', timeout=400, workers=2):
        """Model-check a specification; expect=False: it must be refuted."""
        def job():
            rc, text, gen, dist = self.tlc(module, self.cfg(consts, spec, inv, props, extra), timeout=timeout, workers=workers)
            ok = 'No error has been found' in text
            refuted = bool(re.search(r'is violated|Temporal properties were violated|Deadlock reached', text))
            if not ok and not refuted:
                raise ToolError('TLC on %s %s: rc %s\n%s' % (module, label, rc, text[-3000:]))
            if ok != expect:
                raise ToolError('model %s %s: expected %s\n%s' % (module, label, 'success' if expect else 'refutation', text[-3000:]))
            return dict(module=module, label=label or 'as specified', constants={k: str(v) for k, v in (consts or {}).items()},
                        checked=list(inv) + list(props), outcome='holds' if ok else 'refuted as it must be',
                        states=dist, transitions=gen)
        return self.pool.submit(job)

    def models(self, futures):
        for f in futures:
            r = f.result()
            self.cov['models'].append(r)
            self.cov['states'] += r['states']
            self.cov['transitions'] += r['transitions']
            self.log('model', r['module'], r['label'], r['outcome'], r['states'], 'states')

    def refuted(self, module, consts, defects, const='Defect', **kw):
        return [self.model(module, dict(consts, **{const: d}), expect=False, label='%s=%s' % (const, d), **kw) for d in defects]

    def gen(self, module, consts, simulate=None, depth=None, label='', timeout=300, extra='', take=None):
        """Schedules printed by a generator specification (lines STIM <json>)."""
        def job():
            args = []
            workers = 2
            if simulate:
                args = ['-simulate', 'num=%d' % simulate, '-depth', str(depth), '-seed', str(self.seed * 7919 + 13)]
                workers = 1
            rc, text, gen, dist = self.tlc(module, self.cfg(consts, inv=['Emit'], extra=extra), args=args, timeout=timeout, workers=workers)
            if 'Error' in text and 'No error' not in text:
                raise ToolError('generator %s: %s' % (module, text[-3000:]))
            seen, out = set(), []
            for line in re.findall(r'^"STIM (.*)"$', text, re.M):
                if line not in seen:
                    seen.add(line)
            for line in sorted(seen):
                out.append(json.loads(json.loads('"' + line + '"')))
            total = len(out)
            if not out:
                raise ToolError('generator %s %s produced nothing\n%s' % (module, label, text[-2000:]))
            if take and len(out) > take:
                r = random.Random('%d %s %s' % (self.seed, module, label))
                out = r.sample(out, take)
            return dict(module=module, label=label, mode='simulate' if simulate else 'exhaustive', schedules=total,
                        used=len(out), constants={k: str(v) for k, v in consts.items()}), out
        return self.pool.submit(job)

    def generated(self, future):
        rec, out = future.result()
        self.cov['generated'].append(rec)
        self.log('generated', rec['module'], rec['label'], rec['schedules'], 'used', rec['used'])
        return out

    # ---- the real code ----------------------------------------------------
    def harness(self, lab, scripts, binary='vp-harness', timeout=240, args=(), env=None, min_kept=0.5, user=None):
        """Execute scripts on the real code; returns the recorded traces."""
        self.wait_build()
        stim, out = self.fresh('stim') + '.ndjson', self.fresh('trace') + '.ndjson'
        byid = {}
        with open(stim, 'w') as f:
            for k, s in enumerate(scripts):
                s = dict(s, id=k)
                byid[k] = s
                f.write(json.dumps(s) + '\n')
        t = time.time()
        died = []
        for attempt in (0, 1):
            # A process that dies or hangs twice on the same schedules is the
            # code's doing: schedules that no correct implementation fails to finish.
            try:
                r = subprocess.run([self.binary(binary), lab, stim, out, *args], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                   text=True, timeout=timeout, env=dict(os.environ, **(env or {})))
            except subprocess.TimeoutExpired as e:
                died.append('no end after %d s' % timeout)
                continue
            if r.returncode == 0:
                died = []
                break
            died.append('exited with %d: %s' % (r.returncode, (r.stdout + r.stderr)[-2000:]))
        if died:
            self.log('harness', lab, died)
            try:
                done = [json.loads(l) for l in open(out)]
            except (OSError, ValueError):
                done = []
            self.violation('harness', 'the process under the schedules of ' + lab,
                           dict(ev=[dict(e='died', how=d) for d in died], lab=lab,
                                script=[byid[k] for k in sorted(set(byid) - {x['id'] for x in done})][:50]), 0)
            raise ToolError('harness %s: %s' % (lab, died[0]))
        info = json.loads(r.stdout.strip().splitlines()[-1])
        traces = [json.loads(l) for l in open(out)]
        traces.sort(key=lambda x: x['id'])
        for x in traces:
            x['lab'] = lab
            x['script'] = byid[x['id']]
        self.cov['harness'].append(dict(lab=lab, scripts=len(scripts), traces=len(traces), wall_s=round(time.time() - t, 1), **{k: v for k, v in info.items() if k not in ('scripts',)}))
        self.log('harness', lab, len(scripts), 'scripts', len(traces), 'traces', info)
        return traces

    # ---- trace validation -------------------------------------------------
    def validate_raw(self, module, consts, traces, procs=6, inv=(), extra='', timeout=400, dfs=True):
        """Returns the set of (position, explained events) of the rejected traces."""
        procs = max(1, min(procs, len(traces) // 40 + 1))
        # deal out by size so that the chunks are of similar cost
        order = sorted(range(len(traces)), key=lambda k: -len(traces[k]['ev']))
        chunks = [order[k::procs] for k in range(procs)]
        chunks = [c for c in chunks if c]

        def job(idx):
            path = self.fresh('batch') + '.ndjson'
            with open(path, 'w') as f:
                for k in idx:
                    rec = {'ev': traces[k]['ev']}
                    if 'cfg' in traces[k]:
                        rec['cfg'] = traces[k]['cfg']
                    f.write(json.dumps(rec) + '\n')
            cfg = self.cfg(consts, spec='TSpec', inv=inv, extra='CONSTRAINT Track\nPOSTCONDITION Accepted\n' + extra)
            rc, text, gen, dist = self.tlc(module, cfg, env={'TRACES': path}, timeout=timeout, workers=1, dfs=dfs)
            if 'No error has been found' not in text:
                # An event no step of the specification can even be evaluated on, as they all
                # can on the runs the specification is for: find the runs that have one.
                if re.search(r'Attempted to |Evaluating |evaluating the nested', text) and 'OutOfMemory' not in text:
                    os.remove(path)
                    if len(idx) == 1:
                        self.log('cannot be evaluated:', json.dumps(traces[idx[0]]['ev'])[:200])
                        return [(idx[0], 0)], gen, dist
                    h = (len(idx) + 1) // 2
                    (r1, g1, d1), (r2, g2, d2) = job(idx[:h]), job(idx[h:])
                    return r1 + r2, g1 + g2, d1 + d2
                raise ToolError('trace validation %s (%s): rc %s\n%s' % (module, path, rc, text[-4000:]))
            rej = [(idx[int(a) - 1], int(b)) for a, b in re.findall(r'"REJECTED (\d+) (\d+)"', text)]
            os.remove(path)
            return rej, gen, dist
        rej, gen, dist = [], 0, 0
        for f in [self.pool.submit(job, c) for c in chunks]:
            r, g, d = f.result()
            rej += r
            gen += g
            dist += d
        return dict(rej), gen, dist

    def validate(self, module, traces, consts=None, corrupt=None, ncorrupt=60, maxcorrupt=60, inv=(), what='', extra='',
                 report=True, tidy=None, free=False, assist=None):
        """Validate recorded runs.

        corrupt(events, rng) -> (how, events) or None: a variant that must be rejected.
        tidy(run) -> events with hints where unobservable steps happen; a run
        that is not accepted with the hints is searched without them (cfg.free).
        """
        if not traces:
            raise ToolError('nothing to validate for %s %s' % (module, what))
        bad = []
        if corrupt:
            short = [x for x in traces if len(x['ev']) <= maxcorrupt]
            for x in self.rng.sample(short, min(len(short), ncorrupt * 6)):
                if len(bad) >= ncorrupt:
                    break
                try:
                    c = corrupt(json.loads(json.dumps(x['ev'])), self.rng)
                except (StopIteration, LookupError, TypeError, ValueError):
                    c = None  # not a run that could be right
                if c is not None:
                    bad.append({**x, 'ev': c[1], 'how': c[0], 'orig': x})

        def prepare(x, tidied):
            x = dict(x)
            if tidy and tidied:
                try:
                    x['ev'] = tidy(dict(x, ev=json.loads(json.dumps(x['ev']))))
                except (StopIteration, LookupError, TypeError, ValueError):
                    x['ev'] = x['ev'] + [dict(e='untidy')]  # left to the search without hints
            if free or (tidy and not tidied):
                x['cfg'] = dict(x.get('cfg') or {}, free=1, **(assist(x) if assist else {}))
            return x
        n = len(traces)
        allt = list(traces) + bad
        first = [prepare(x, True) for x in allt]
        rej, gen, dist = self.validate_raw(module, consts, first, inv=inv, extra=extra)
        if tidy and rej and not free:
            # search the rejected ones without hints, shortest first, until one is confirmed
            todo = sorted((k for k in rej if k < n), key=lambda k: len(allt[k]['ev']))
            done0 = {k: v for k, v in rej.items() if k < n}
            for k in done0:
                first[k]['at'] = rej[k]
            badk = [k for k in rej if k >= n]
            confirmed, step = {}, 0
            while todo and not confirmed:
                batch, todo = todo[:24], todo[24:]
                r, g, d = self.validate_raw(module, consts, [prepare(allt[k], False) for k in batch], inv=inv, extra=extra, dfs=True)
                gen, dist = gen + g, dist + d
                confirmed.update({batch[k]: v for k, v in r.items()})
                step += len(batch)
            if os.environ.get('VP_DEBUG'):
                json.dump([first[k] for k in sorted((k for k in done0), key=lambda k: len(first[k]['ev']))], open('/tmp/nohint.json', 'w'))
            if step:
                self.log('searched', step, 'runs without hints,', len(confirmed), 'rejected')
            if badk:
                r, g, d = self.validate_raw(module, consts, [prepare(allt[k], False) for k in badk], inv=inv, extra=extra, dfs=True)
                gen, dist = gen + g, dist + d
                confirmed.update({badk[k]: v for k, v in r.items()})
            rej = confirmed
        rejected = [(allt[k], rej[k]) for k in range(n) if k in rej]
        rejids = {id(traces[k]) for k in range(n) if k in rej}
        missed = [allt[k] for k in range(n, len(allt)) if k not in rej and id(allt[k]['orig']) not in rejids]
        kinds = collections.Counter(b['how'] for b in bad)
        if missed and not rejected and not self.violations:
            p = os.path.join(self.replays, '%s-missed.json' % self.prop)
            json.dump(missed[0], open(p, 'w'))
            raise ToolError('%d corrupted traces accepted by %s, e.g. %s (%s)' % (len(missed), module, missed[0]['how'], p))
        self.cov['states'] += dist
        self.cov['transitions'] += gen
        self.cov['traces_validated_against_impl'] += n
        for x in traces:
            for e in x['ev']:
                k = e['e']
                self.cov['events'][k] = self.cov['events'].get(k, 0) + 1
        self.cov['validated'].append(dict(module=module, what=what, traces=n, rejected=len(rejected), states=dist,
                                          distinct=len({json.dumps(x['ev']) for x in traces}),
                                          corrupted=len(bad), corrupted_rejected=len(bad) - len(missed), corruptions=dict(kinds)))
        if n and len(self.cov['samples']) < 6:
            x = traces[self.rng.randrange(n)]
            self.cov['samples'].append(dict(spec=module, script=x['script'], ev=x['ev'][:60]))
        self.log('validated', module, what, n, 'traces', len(rejected), 'rejected;', len(bad), 'corrupted,', len(missed), 'missed')
        if report:
            for x, at in rejected:
                self.violation(module, what, x, at)
        return rejected

    def violation(self, module, what, trace, at):
        k = len(self.violations)
        rec = dict(property=self.prop, spec=module, what=what, explained_events=at,
                   unexplained=trace['ev'][at] if at < len(trace['ev']) else 'end of run', lab=trace.get('lab'),
                   script=trace.get('script'), cfg=trace.get('cfg'), events=trace['ev'])
        self.violations.append(rec)
        if k < 5:
            p = os.path.join(self.replays, '%s-%d.json' % (self.prop, k))
            json.dump(rec, open(p, 'w'), indent=1)
            rec['path'] = p
            self.log('rejected:', what, 'at event', at, json.dumps(rec['unexplained'])[:300])

    # ---- the end ----------------------------------------------------------
    def known(self):
        out = []
        p = os.path.join(ROOT, 'known_findings.txt')
        for line in open(p):
            m = re.match(r'open: property=(\S+) id=(\S+) (.*)', line.strip())
            if m and m.group(1) == self.prop:
                out.append((m.group(2), m.group(3)))
        return out

    def finding(self, key, what):
        """Is this failure a recorded finding?"""
        for k, text in self.known():
            if k == key:
                self.findings.setdefault(key, (text, []))[1].append(what)
                return True
        return False

    def finish(self):
        for key, (text, seen) in sorted(self.findings.items()):
            print('KNOWN-FINDING: property=%s %s: %s (seen: %s)' % (self.prop, key, text, '; '.join(sorted(set(seen))[:3])), flush=True)
        self.cov['known_findings'] = {k: sorted(set(s)) for k, (_, s) in self.findings.items()}
        self.cov['notes'] = self.notes
        rec = dict(property=self.prop, tier='quick' if self.quick else 'thorough', seed=self.seed, level='model_checking',
                   coverage=self.cov, wall_s=round(time.time() - self.t0, 1))
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        json.dump(rec, open(os.path.join(ROOT, 'evidence', self.prop + '.json'), 'w'), indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        if self.violations:
            print('VIOLATION property=%s replay=%s' % (self.prop, self.violations[0].get('path')), flush=True)
            return 1
        self.log('held on everything explored')
        return 0


def main(props):
    prop = sys.argv[1]
    import importlib
    sys.path.insert(0, os.path.join(ROOT, 'bin', 'props'))
    c = Check(prop)
    try:
        mod = importlib.import_module(prop.lower())
        c.start_build(getattr(mod, 'CRATE', 'harness'))
        mod.run(c)
        rc = c.finish()
    except ToolError as e:
        print('ERROR', e, flush=True)
        # A violation already established stands.
        rc = c.finish() if c.violations else 2
    except Exception:
        import traceback
        traceback.print_exc()
        rc = c.finish() if c.violations else 2
    sys.stdout.flush()
    os._exit(rc)
