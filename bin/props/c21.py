"""C21: the operation a task names is the operation that is executed."""
import json, os, shutil, subprocess, vlib
CRATE = 'oplab'
OFF = dict(Ops=[], Calls=[])
PLACES = ['root', 'a', 'b', 'a::c', 'file', 'local']
FORMS = ['unit', 'field', 'enum', 'monoid', 'macro']
B = os.path.join(vlib.BUILD, 'oplab')

HEAD = '''use serde::{Deserialize, Serialize};
use paladin::{operation::{Operation, Monoid, Result}, AbortSignal, RemoteExecute};
use oplab::{entry, ran, Entry, Val};
'''
MACRO = '''#[macro_export]
macro_rules! define {
    ($name:ident, $n:expr) => {
        #[derive(Debug, Clone, Serialize, Deserialize, RemoteExecute)]
        pub struct $name(u64);
        impl Operation for $name {
            type Input = u64;
            type Output = Val;
            fn execute(&self, k: u64, _: AbortSignal) -> Result<Val> { Ok(ran($n, self.0, k)) }
        }
    };
}
'''
DERIVE = '#[derive(Debug, Clone, Serialize, Deserialize, RemoteExecute)]\n'


def define(name, n, form):
    """Source of operation n and the expressions that make it and its input."""
    op = '''impl Operation for %s {
    type Input = u64;
    type Output = Val;
    fn execute(&self, k: u64, _: AbortSignal) -> Result<Val> { Ok(ran(%d, %s, k)) }
}
'''
    if form == 'unit':
        return DERIVE + 'pub struct %s;\n' % name + op % (name, n, '0'), '|_| %s' % name, '|k| k'
    if form == 'field':
        return DERIVE + 'pub struct %s { f: u64 }\n' % name + op % (name, n, 'self.f'), '|f| %s { f }' % name, '|k| k'
    if form == 'enum':
        return DERIVE + 'pub enum %s { A, B(u64) }\n' % name + op % (name, n, 'match self { Self::A => 0, Self::B(f) => *f }'), \
            '|f| if f == 0 { %s::A } else { %s::B(f) }' % (name, name), '|k| k'
    if form == 'macro':
        return 'crate::define!(%s, %d);\n' % (name, n), '%s' % name, '|k| k'
    return DERIVE + '''pub struct %s { f: u64 }
impl Monoid for %s {
    type Elem = Val;
    fn empty(&self) -> Val { Val { k: 0, op: 0, f: 0 } }
    fn combine(&self, a: Val, _: Val, _: AbortSignal) -> Result<Val> { Ok(ran(%d, self.f, a.k)) }
}
''' % (name, name, n), '|f| %s { f }' % name, '|k| (Val { k, op: 0, f: 0 }, Val { k, op: 0, f: 0 })'


def sources(prog, offset=0):
    """The files of a crate that defines these operations: {name: text}."""
    at = {p: [] for p in PLACES}
    for k, o in enumerate(prog):
        name = 'Op%d' % len(at[o['place']])
        at[o['place']].append((k + 1 + offset, name, *define(name, k + 1 + offset, o['form'])))

    def body(place, inner=''):
        s = ''.join(x[2] for x in at[place])
        v = ''.join('    v.push((%d, entry::<%s>(%s, %s)));\n' % (n, name, make, inp) for n, name, _, make, inp in at[place])
        return s + 'pub fn entries() -> Vec<(usize, Entry)> {\n    #[allow(unused_mut)]\n    let mut v: Vec<(usize, Entry)> = vec![];\n%s%s    v\n}\n' % (v, inner)
    local = ''.join('fn local%d() -> (usize, Entry) {\n%s    (%d, entry::<%s>(%s, %s))\n}\n' % (n, src, n, name, make, inp)
                    for n, name, src, make, inp in at['local'])
    inner = ''.join('    v.extend(%s::entries());\n' % m for m in ('a', 'b', 'file')) + \
        ''.join('    v.push(local%d());\n' % x[0] for x in at['local'])
    allow = '#![allow(unused_imports, dead_code, unused_macros, clippy::all)]\n'
    head = HEAD
    main = allow + MACRO + head + 'mod file;\nmod b {\n%s%s}\n' % (head, body('b')) + local + body('root', inner) + \
        'mod a {\n%s%spub mod c {\n%s%s}\n}\n' % (head, body('a', '    v.extend(c::entries());\n'), head, body('a::c'))
    return {'main': main, 'file': head + body('file')}


MAIN = '''fn main() {
    let mut v = %s;
    v.sort_by_key(|e| e.0);
    oplab::main(v.into_iter().map(|e| e.1).collect());
}
'''
LINK = 'fn main() {\n    %s::register();\n    let mut v = %s::entries();\n    v.sort_by_key(|e| e.0);\n    oplab::main(v.into_iter().map(|e| e.1).collect());\n}\n'


def put(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if not os.path.exists(path) or open(path).read() != text:
        open(path, 'w').write(text)


class Lab:
    """A workspace of generated programs."""

    def __init__(self, c):
        self.c, self.libs = c, []
        shutil.rmtree(B, ignore_errors=True)
        self.bins = []

    def package(self, name, deps):
        lab = os.path.join(vlib.ROOT, 'oplab', 'lab')
        put('%s/%s/Cargo.toml' % (B, name), '[package]\nname = "%s"\nversion = "0.1.0"\nedition = "2021"\n\n[dependencies]\n'
            'oplab = { path = "%s" }\npaladin-core = { path = "/repo/paladin-core" }\nserde = { version = "1", features = ["derive"] }\n%s'
            % (name, lab, ''.join('%s = { path = "../%s" }\n' % (d, d) for d in deps)))

    def binary(self, name, prog):
        s = sources(prog)
        put('%s/progs/src/bin/%s/main.rs' % (B, name), s['main'] + MAIN % 'entries()')
        put('%s/progs/src/bin/%s/file.rs' % (B, name), s['file'])
        self.bins.append(name)

    def library(self, name, prog, offset=0):
        s = sources(prog, offset)
        put('%s/%s/src/lib.rs' % (B, name), s['main'] + 'paladin::registry!();\n')
        put('%s/%s/src/file.rs' % (B, name), s['file'])
        self.package(name, [])
        self.libs.append(name)

    def linked(self, name, lib):
        put('%s/progs/src/bin/%s/main.rs' % (B, name), LINK % (lib, lib))
        self.bins.append(name)

    def build(self, flags=''):
        self.package('progs', self.libs)
        put(B + '/Cargo.toml', '[workspace]\nresolver = "2"\nmembers = [%s]\n\n[profile.dev]\ndebug = 0\n%s' %
            (', '.join('"%s"' % n for n in ['progs'] + self.libs), flags))
        shutil.copy(os.path.join(vlib.ROOT, 'harness', 'Cargo.lock'), B + '/Cargo.lock')
        vlib.refresh()
        env = dict(os.environ, RUSTFLAGS='--cfg paladin_verif --cfg tokio_unstable', CARGO_NET_OFFLINE='true',
                   CARGO_TARGET_DIR=os.path.join(vlib.BUILD, 'target'), CARGO_TERM_COLOR='never', CARGO_INCREMENTAL='0', RUSTC_WRAPPER='')
        env.pop('CARGO_ENCODED_RUSTFLAGS', None)
        r = subprocess.run(['cargo', 'build', '--offline', '-q', '-p', 'progs'], cwd=B, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
        if r.returncode:
            raise vlib.ToolError('cargo build of the generated programs failed:\n' + r.stdout[max(0, r.stdout.find('\nerror')):][:4000])
        self.c.log('built', len(self.bins), 'programs')


def calls(c, prog, n, some=None):
    out = some or [dict(op=c.rng.randrange(len(prog)) + 1, f=c.rng.randrange(3)) for _ in range(n)]
    return [dict(x, f=0 if prog[x['op'] - 1]['form'] == 'unit' else x['f']) for x in out]


def scripts(c, name, prog, vias, gen=None, all_of_them=False):
    out = []
    for via in vias:
        if all_of_them:
            order = [dict(op=k + 1, f=c.rng.randrange(3)) for k in range(len(prog))]
            c.rng.shuffle(order)
            out.append(dict(via=via, prog=name, calls=calls(c, prog, 0, order)))
        else:
            once = [dict(op=k + 1, f=1) for k in range(len(prog))]
            out.append(dict(via=via, prog=name, calls=calls(c, prog, 0, once)))
            out.append(dict(via=via, prog=name, calls=calls(c, prog, 0, gen)))
    return out


def corrupt(ev, rng):
    at = [k for k, e in enumerate(ev) if e['e'] == 'ran']
    ops = sorted({e['op'] for e in ev if 'op' in e})
    kind = rng.choice(['other operation', 'other data', 'other answer', 'not executed', 'twice'])
    k = rng.choice(at)
    o = next(j for j, e in enumerate(ev) if e['e'] == 'out' and e['k'] == ev[k]['k'])
    if kind == 'other operation' and len(ops) > 1:
        ev[k]['op'] = rng.choice([x for x in ops if x != ev[k]['op']])
    elif kind == 'other data':
        ev[k]['f'] += 1
    elif kind == 'other answer' and len(ops) > 1:
        ev[o]['op'] = rng.choice([x for x in ops if x != ev[o]['op']])
    elif kind == 'not executed':
        del ev[k]
    elif kind == 'twice':
        ev.insert(k, dict(ev[k]))
    else:
        return None
    return kind, ev


def run(c):
    q = c.quick
    ms = [c.model('Operations', dict(Ops=[1, 2], Calls=[1, 2, 3]), inv=['Named'], props=['Answered'], label='contract'),
          c.model('OperationsImpl', dict(MaxOps=3 if q else 4, Mods=[1, 2], MaxCalls=2, Defect='none'), inv=['Named', 'Unique'], label='mechanism', workers=4, timeout=800)]
    ms += c.refuted('OperationsImpl', dict(MaxOps=3, Mods=[1, 2], MaxCalls=2), ['by_position', 'per_module', 'wraps', 'late_id'], inv=['Named'])
    ms.append(c.model('OperationsImpl', dict(MaxOps=3, Mods=[1, 2], MaxCalls=2, Defect='late_id'), inv=['NamedAtHome'], label='late_id in one process'))
    nbin, nlib = (4, 2) if q else (24, 10)
    g = c.generated(c.gen('GenOperations', dict(MaxOps=9 if q else 14, Places=PLACES, Forms=FORMS, Calls=16), simulate=60 if q else 300, depth=40,
                          take=nbin + nlib, label='programs'))
    c.wait_build()
    lab = Lab(c)
    progs = {}
    for k, s in enumerate(g[:nbin]):
        progs['p%d' % k] = s['prog']
        lab.binary('p%d' % k, s['prog'])
    big = [dict(place=PLACES[(7 * k * k + k // 5) % len(PLACES)], form=FORMS[k % len(FORMS)]) for k in range(256)]
    progs['big'] = big
    lab.binary('big', big)
    for k, s in enumerate(g[nbin:]):
        n = 'l%d' % k
        progs[n] = s['prog']
        lab.library('ops_' + n, s['prog'])
        lab.linked(n + '_leader', 'ops_' + n)
        # the executing binary has a crate of its own in front
        lab.linked(n + '_worker', 'ops_' + n)
    # two crates that define operations (known finding)
    two = [dict(place='root', form='field'), dict(place='a', form='field')]
    lab.library('ops_x', two)
    s = sources(two, 2)
    put(B + '/progs/src/bin/x/main.rs', s['main'] + MAIN % 'ops_x::entries()' .replace('ops_x::entries()', '{ let mut v = ops_x::entries(); v.extend(entries()); v }'))
    put(B + '/progs/src/bin/x/file.rs', s['file'])
    lab.bins.append('x')
    lab.build()
    traces = []
    hung = lambda: any(e.get('how') == 'no end' for t in traces for e in t['ev'])
    for k, s in enumerate(g[:nbin]):
        if hung():
            break
        traces += c.harness('run', scripts(c, 'p%d' % k, s['prog'], ['direct', 'join', 'runtime'], s['calls']), binary='p%d' % k)
    if not hung():
        traces += c.harness('run', scripts(c, 'big', big, ['direct', 'join', 'runtime'], all_of_them=True), binary='big')
    for k, s in enumerate(g[nbin:]):
        if hung():
            break
        n = 'l%d' % k
        sc = scripts(c, n, s['prog'], ['direct', 'join'], s['calls'])
        traces += c.harness('run', sc + scripts(c, n, s['prog'], ['runtime'], s['calls']), binary=n + '_leader')
        stim, out = c.fresh('remote'), c.fresh('remote')
        with open(stim, 'w') as f:
            f.writelines(json.dumps(dict(x, id=i)) + '\n' for i, x in enumerate(sc))
        r = subprocess.run([c.binary(n + '_leader'), 'write', stim, out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60)
        if r.returncode:
            raise vlib.ToolError(r.stdout)
        traces += c.harness('run', [json.loads(l) for l in open(out)], binary=n + '_worker')
    for t in traces:
        t['script'].pop('tasks', None)
    c.validate('TraceOperations', traces, OFF, corrupt=corrupt, ncorrupt=40, maxcorrupt=200, what='programs')
    cross(c, two)
    c.models(ms)


def cross(c, two):
    """Operations of two crates in one program."""
    prog = two + two
    t = c.harness('run', [dict(via='direct', prog='x', calls=[dict(op=o, f=1)]) for o in (1, 2, 3, 4)], binary='x')
    for x in c.validate('TraceOperations', t, OFF, what='two crates', report=False):
        trace, at = x
        e = trace['ev'][at]
        o = trace['script']['calls'][0]['op']
        # operations k and k + 2 have the same number in their crates
        if e['e'] == 'ran' and e['op'] != o and (e['op'] - o) % 2 == 0 and c.finding('two-crates', 'operation %d was asked for, %d was executed' % (o, e['op'])):
            continue
        c.violation('TraceOperations', 'two crates', trace, at)
