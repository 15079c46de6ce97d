#!/usr/bin/env python3
"""Runs one property's check: TLC on the property's models, the driver on the
real code built from /repo's working tree, TLC on the recorded traces.

  check.py C06 [--tier quick|thorough] [--seed N] [--keep]

exit 0: held on everything explored; 1: VIOLATION line printed; 2: error."""
import argparse, concurrent.futures as cf, glob, hashlib, json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(HERE, 'spec')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(HERE, 'build'))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from config import CHECKS  # noqa: E402

JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
BASE = ['-std=c++20', '-O1', '-g1', '-fno-omit-frame-pointer', '-D_GLIBCXX_ASSERTIONS',
        '-include', 'cstdint', '-include', 'algorithm', '-I', f'{REPO}/include', '-w', '-pthread']
SAN = {'asan': ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined'],
       'tsan': ['-fsanitize=thread'], 'plain': []}
NCPU = os.cpu_count() or 4


class Broken(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b'\0')
    return h.hexdigest()[:24]


def tree_hash(root, suffixes):
    fs = sorted(f for s in suffixes for f in glob.glob(f'{root}/**/*{s}', recursive=True))
    return sha(*[x for f in fs for x in (os.path.relpath(f, root), open(f, 'rb').read())])


def compile_one(cmd, obj):
    if os.path.exists(obj):
        return None
    tmp = f'{obj}.{os.getpid()}.tmp'
    r = subprocess.run(cmd + ['-o', tmp], capture_output=True, text=True)
    if r.returncode:
        return r.stderr[-4000:]
    os.replace(tmp, obj)
    return None


def build(driver, flavours):
    """Library and driver from the working tree; returns {flavour: binary}.
    Should the driver not compile (a change of the types in the interface), the
    parts that depend on exact types are left out."""
    try:
        return build_once(driver, flavours, [])
    except Broken as b:
        if 'REDUCED' not in open(f'{HERE}/drivers/{driver}.cpp').read():
            raise
        log('without the parts that do not compile:', str(b)[:300])
        return build_once(driver, flavours, ['-DREDUCED'])


def build_once(driver, flavours, more):
    os.makedirs(f'{BUILD}/obj', exist_ok=True)
    hdr = tree_hash(f'{REPO}/include', ['.h', '.hxx', '.hpp'])
    srcs = sorted(glob.glob(f'{REPO}/src/**/*.cxx', recursive=True))
    if not srcs:
        raise Broken('no sources found in ' + REPO)
    common = b''.join(open(x, 'rb').read() for x in sorted(glob.glob(f'{HERE}/drivers/*.h')))
    extra = [f'{HERE}/drivers/{x}' for x in sorted(os.listdir(f'{HERE}/drivers')) if x.startswith(driver + '_') and x.endswith('.cpp')]
    jobs, bins = [], {}
    for fl in flavours:
        flags = BASE + SAN[fl]
        objs = []
        for s in srcs:
            o = f'{BUILD}/obj/{sha(hdr, s, open(s, "rb").read(), " ".join(flags))}.o'
            objs.append(o)
            jobs.append((['g++'] + flags + ['-c', s], o))
        for d in [f'{HERE}/drivers/{driver}.cpp'] + extra:
            o = f'{BUILD}/obj/{sha(hdr, common, open(d, "rb").read(), " ".join(flags + more))}.o'
            jobs.insert(0, (['g++'] + flags + more + ['-I', f'{HERE}/drivers', '-c', d], o))
            objs.append(o)
        bins[fl] = (f'{BUILD}/obj/{sha(*objs)}.bin', objs, flags)
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for err in ex.map(lambda j: compile_one(*j), jobs):
            if err:
                raise Broken('compilation failed:\n' + err)
    res = {}
    for fl, (b, objs, flags) in bins.items():
        err = compile_one(['g++'] + flags + objs, b)
        if err:
            raise Broken('link failed:\n' + err)
        res[fl] = b
    return res


# ------------------------------------------------------------------- TLC
def tlc(module, cfg, work, env=None, workers=1, heap='1800m', extra=(), timeout=600, stack='256m'):
    os.makedirs(work, exist_ok=True)
    e = dict(os.environ, **(env or {}))
    e.pop('JAVA_TOOL_OPTIONS', None)
    gc = ['-XX:+UseSerialGC'] if workers == 1 else ['-XX:+UseParallelGC']
    cmd = ['java'] + gc + [f'-Xmx{heap}', f'-Xss{stack}', '-XX:TieredStopAtLevel=4', f'-DTLA-Library={SPEC}', f'-Djava.io.tmpdir={work}', '-cp', JAR, 'tlc2.TLC',
           '-noGenerateSpecTE', '-metadir', f'{work}/states', '-workers', str(workers), '-config', cfg] + list(extra) + [f'{SPEC}/{module}.tla']
    t = time.time()
    try:
        r = subprocess.run(cmd, cwd=work, env=e, capture_output=True, text=True, timeout=timeout, errors='replace')
        out, rc = r.stdout + r.stderr, r.returncode
    except subprocess.TimeoutExpired as x:
        out, rc = (x.stdout or b'').decode(errors='replace') if isinstance(x.stdout, bytes) else (x.stdout or ''), -1
    shutil.rmtree(f'{work}/states', ignore_errors=True)
    m = ([None] + list(re.finditer(r'(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found', out)))[-1]  # the last: others report progress
    d = re.search(r'depth of the complete state graph search is (\d+)', out)
    return dict(rc=rc, out=out, gen=int(m[1]) if m else 0, distinct=int(m[2]) if m else 0,
                depth=int(d[1]) if d else 0, wall=time.time() - t)


def run_model(mc, work, tier):
    """Model checking of the specification itself (never touches the code)."""
    cfg = f"{SPEC}/{mc.get('cfg', mc['module'])}.cfg"
    change = mc.get('consts') or (mc.get('thorough') if tier == 'thorough' else None)
    if change:               # the same model with other constants
        text = open(cfg).read()
        for k, v in change.items():
            text, n = re.subn(rf'^(\s*(?:CONSTANTS? )?{k} = ).*$', lambda m: m[1] + v, text, flags=re.M)
            if n != 1:
                raise Broken(f'{cfg} has no constant {k}')
        os.makedirs(work, exist_ok=True)
        cfg = f'{work}/model.cfg'
        open(cfg, 'w').write(text)
    r = tlc(mc['module'], cfg, work, workers=mc.get('workers', 2),
            heap=mc.get('heap', '3g'), timeout=mc.get('timeout', 700), extra=mc.get('extra', []), env=dict(TIER=tier))
    if mc.get('breaks'):     # a faulty machine: the invariants have to tell
        if not re.search(r'(Invariant|property) \w+ is violated|Temporal properties were violated', r['out']):
            raise Broken(f"model {mc['module']} with {change} should break its invariants (rc {r['rc']}):\n" + errors_of(r['out']))
        return r
    if r['rc'] != 0:
        raise Broken(f"model {mc['module']} failed (rc {r['rc']}):\n" + errors_of(r['out']))
    return r


def generate(g, work, seed, tier):
    """Behaviours of the specification, as command lines for the driver."""
    import gen
    depth = g['depth'][tier] if isinstance(g.get('depth'), dict) else g.get('depth', 0)
    extra = list(g.get('extra', []))
    env = dict(GEN_DEPTH=str(depth), TIER=tier, **g.get('env', {}))
    if g.get('simulate'):
        extra += ['-simulate', f"num={g['simulate'][tier]}", '-depth', str(depth + 1), '-seed', str(seed)]
    r = tlc(g['module'], f"{SPEC}/{g.get('cfg', g['module'])}.cfg", work, env=env, workers=1, extra=extra, heap='3g',
            timeout=g.get('timeout', 400))
    if r['rc'] != 0:
        raise Broken(f"generation {g['module']} failed (rc {r['rc']}):\n" + errors_of(r['out']))
    behs = gen.behaviours(r['out'])
    if not behs:
        raise Broken(f"generation {g['module']} gave nothing:\n{r['out'][-2000:]}")
    path = f'{work}/cmds.txt'
    n = gen.write(g['format'], behs, path)
    return dict(path=path, behaviours=n, gen=r['gen'], distinct=r['distinct'])


def run_driver(binary, trace, seed, shard, shards, scale, cmds, timeout, env=None):
    e = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:exitcode=77:allocator_may_return_null=0:max_allocation_size_mb=4096',
             UBSAN_OPTIONS='print_stacktrace=1:exitcode=77', TSAN_OPTIONS='exitcode=78:halt_on_error=1')
    e.update(env or {})
    cmd = [binary, '--seed', str(seed), '--shard', str(shard), '--shards', str(shards), '--scale', str(scale)]
    if cmds:
        cmd += ['--cmds', cmds]
    what = None
    with open(trace, 'wb') as f, open(trace + '.err', 'wb') as g:
        try:
            rc = subprocess.run(cmd, stdout=f, stderr=g, timeout=timeout, env=e).returncode
            if rc != 0:
                what = 'crash'
        except subprocess.TimeoutExpired:
            rc, what = -999, 'hang'
    if what:
        # A call that never came back is an event of its own; no specification allows it.
        data = open(trace, 'rb').read()
        if data and not data.endswith(b'\n'):
            data = data[:data.rfind(b'\n') + 1]
        err = open(trace + '.err', 'rb').read()[-20000:].decode(errors='replace')
        keep = [l for l in err.splitlines() if re.search(r'ERROR|runtime error|Assertion|SUMMARY|terminate|what\(\)|WARNING: Thread', l)][:6]
        with open(trace, 'wb') as f:
            f.write(data + json.dumps(dict(op=what, rc=rc, err=' | '.join(keep)[:600])).encode() + b'\n')
    return what


def errors_of(o):
    i = max(o.find('Error'), 0)
    return o[i:i + 2500]


def validate(trace_module, trace, work, env=None, timeout=800):
    n = sum(1 for _ in open(trace, 'rb'))
    r = tlc(trace_module, f'{SPEC}/{trace_module}.cfg', work, env=dict(env or {}, TRACE=trace), timeout=timeout)
    if r['rc'] not in (0, -1) and re.search('OutOfMemory|StackOverflow|ran out of memory', r['out']):
        log(f'TLC short of resources on {trace}, again with more:', errors_of(r['out'])[:800])
        r = tlc(trace_module, f'{SPEC}/{trace_module}.cfg', work, env=dict(env or {}, TRACE=trace), timeout=timeout, heap='5g', stack='1g')
    r['lines'] = n
    o = r['out']
    if r['rc'] == 0 and 'Model checking completed. No error has been found' in o:
        r['ok'] = True
        return r
    r['ok'] = False
    if r['rc'] == -1 or 'OutOfMemory' in o or 'StackOverflow' in o:
        raise Broken(f'TLC could not finish on {trace}: rc {r["rc"]}\n' + errors_of(o))
    if re.search(r'[Pp]ostcondition|POSTCONDITION', o):
        r['at'] = r['depth']       # depth d: events 1..d-1 accepted, event d rejected
    elif re.search(r'Invariant \w+ is violated|Action property \w+ is violated|Evaluating|Attempted|The error occurred|was not|violated|Overflow when computing', o) and 'Parsing or semantic analysis failed' not in o and 'Finished in' in o:
        m = re.findall(r'^/\\ l = (\d+)', o, re.M) or re.findall(r'^l = (\d+)', o, re.M)
        r['at'] = int(m[-1]) if m else 0
    else:
        raise Broken(f'TLC failed on {trace}: rc {r["rc"]}\n' + errors_of(o))
    return r


def clip(x, n=700):
    s = x if isinstance(x, str) else json.dumps(x)
    return s if len(s) <= n else s[:n] + f'...(+{len(s)-n} chars)'


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--keep', action='store_true')
    ap.add_argument('--no-mc', action='store_true')
    a = ap.parse_args()
    c = CHECKS[a.prop]
    t0 = time.time()
    run = f'{BUILD}/run/{a.prop}-{a.tier}-{os.getpid()}'
    os.makedirs(run, exist_ok=True)
    thorough = a.tier == 'thorough'
    mcs = [] if a.no_mc else c.get('mc', []) + (c.get('mc_thorough', []) if thorough else [])
    pool = cf.ThreadPoolExecutor(NCPU)
    t_b = time.time()
    fmc = [pool.submit(run_model, mc, f'{run}/mc{i}', a.tier) for i, mc in enumerate(mcs)]
    fgen = [pool.submit(generate, g, f'{run}/gen{i}', a.seed, a.tier) for i, g in enumerate(c.get('gen', []))]
    flavours = c.get('flavours', ['asan'])
    bins = build(c['driver'], flavours)
    gens = [f.result() for f in fgen]
    log(f'[{a.prop}] built in {time.time()-t_b:.1f}s')

    # shards: (name, binary, shard, shards, cmds)
    ns = c.get('shards', 6)
    scale = c.get('scale', {}).get(a.tier, 6 if thorough else 1)
    work = []
    for fl in flavours:
        for k in range(ns if fl == flavours[0] else c.get('extra_shards', 2)):
            work.append((f'{fl}-rand{k}', bins[fl], k, ns, None))
    for i, g in enumerate(gens):
        for k in range(c.get('gen_shards', 2)):
            work.append((f'gen{i}-{k}', bins[flavours[0]], k, c.get('gen_shards', 2), g['path']))
    tmo = c.get('driver_timeout', 120) * (4 if thorough else 1)

    def one(w):
        name, b, k, n, cmds = w
        trace = f'{run}/{name}.ndjson'
        what = run_driver(b, trace, a.seed, k, n, scale, cmds, tmo, c.get('env'))
        if what == 'hang':   # a slow machine is not a defect: it has to repeat
            run_driver(b, trace, a.seed, k, n, scale, cmds, tmo * 2, c.get('env'))
        r = validate(c['trace'], trace, f'{run}/v-{name}')
        if not r['ok']:      # TLC has to reject the very same recording twice
            r2 = validate(c['trace'], trace, f'{run}/v2-{name}')
            if r2['ok']:
                raise Broken('TLC disagreed with itself on ' + trace)
        return name, trace, r
    results = [f.result() for f in [pool.submit(one, w) for w in work]]
    models = [f.result() for f in fmc]

    # ---------------------------------------------------------- verdict
    known = [l.strip() for l in open(f'{HERE}/known-findings.txt')] if os.path.exists(f'{HERE}/known-findings.txt') else []
    listed = {}
    for l in known:
        m = re.match(r'known: property=(\S+) id=(\S+) (.*)', l)
        if m and m[1] == a.prop:
            listed[m[2]] = m[3]
    ops, samples, seen_known, events, bad = {}, [], set(), 0, []
    distinct = set()
    for name, trace, r in results:
        with open(trace, 'rb') as f:
            for i, line in enumerate(f):
                events += 1
                m = re.search(rb'"op":\s*"([^"]*)"', line)
                o = m[1].decode() if m else '?'
                ops[o] = ops.get(o, 0) + 1
                distinct.add(hash(line))
                if ops[o] <= 1 and len(samples) < 12:
                    samples.append(clip(line.decode(errors='replace').strip(), 400))
                if b'"known"' in line:
                    k = re.search(rb'"known":\s*"([^"]*)"', line)
                    if k:
                        seen_known.add(k[1].decode())
        if not r['ok']:
            bad.append((name, trace, r))
    for k in sorted(seen_known):
        if k in listed:
            print(f'KNOWN-FINDING: property={a.prop} {k}: {listed[k]}')
        else:
            bad.append((k, None, dict(at=0, out=f'finding {k} is not listed in known-findings.txt')))
    ev = dict(property=a.prop, tier=a.tier, seed=a.seed, level='model_checking', coverage=dict(
        states=sum(m['distinct'] for m in models) + sum(r['distinct'] for _, _, r in results),
        transitions=sum(m['gen'] for m in models) + sum(r['gen'] for _, _, r in results),
        traces_validated_against_impl=len(results),
        trace_events_validated=sum(min(r['lines'], max(r.get('at', 0) - 1, 0)) if not r['ok'] else r['lines'] for _, _, r in results),
        distinct_events=len(distinct), events_per_operation=ops,
        models=[dict(module=mc['module'], cfg=mc.get('cfg', mc['module']), faulty=mc.get('consts') if mc.get('breaks') else None, distinct=m['distinct'], generated=m['gen'], depth=m['depth'], wall_s=round(m['wall'], 1)) for mc, m in zip(mcs, models)],
        spec_generated_behaviours_replayed=sum(g['behaviours'] for g in gens), samples=samples),
        assumptions=c.get('assumptions', []) + ['exhaustive only inside the models\' small constants; the code is judged on the recorded and generated executions'],
        wall_s=round(time.time() - t0, 1), violations=len(bad))
    os.makedirs(f'{HERE}/evidence', exist_ok=True)
    with open(f'{HERE}/evidence/{a.prop}.json', 'w') as f:
        json.dump(ev, f, indent=1)
    if bad:
        rep = f'{BUILD}/replay'
        os.makedirs(rep, exist_ok=True)
        for name, trace, r in bad[:1]:
            path = f'{rep}/{a.prop}-{name}-seed{a.seed}.json'
            at, lines = r.get('at', 0), []
            if trace:
                lines = open(trace, 'rb').read().decode(errors='replace').splitlines()
            rej = lines[at - 1] if 0 < at <= len(lines) else None
            json.dump(dict(property=a.prop, seed=a.seed, tier=a.tier, run=name, spec=c['trace'], rejected_event_number=at,
                           rejected_event=rej, preceding=lines[max(0, at - 6):max(0, at - 1)],
                           rerun=f'VERIF_SEED={a.seed} python3 check.py {a.prop} --tier {a.tier} --keep', tlc=r['out'][-2500:]), open(path, 'w'), indent=1)
            log(f'[{a.prop}] {name}: event {at} of {len(lines)} rejected: {clip(rej or r["out"][-600:], 1500)}')
            print(f'VIOLATION property={a.prop} replay={path}', flush=True)
    log(f'[{a.prop}] {events} events, {len(results)} traces, {ev["coverage"]["states"]} states, {ev["wall_s"]}s, {"VIOLATION" if bad else "ok"}')
    if not a.keep:
        shutil.rmtree(run, ignore_errors=True)
    pool.shutdown(wait=False)
    sys.exit(1 if bad else 0)


if __name__ == '__main__':
    try:
        main()
    except Broken as b:
        log('ERROR:', b)
        for d in glob.glob(f'{BUILD}/run/*-{os.getpid()}'):
            shutil.rmtree(d, ignore_errors=True)
        sys.exit(2)
