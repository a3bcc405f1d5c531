#!/usr/bin/env python3
"""check.py ID: decides one property on the code in /repo.

 1. builds the conformance driver against /repo's working tree;
 2. model checks the design machines of the property (TLC);
 3. replays the behaviours TLC generated from them through the real code (spec -> code);
 4. records histories of the real code and checks them against the trace specification with TLC
    (code -> spec).

Exit 0: the property held on everything explored.  Exit 1, with a line
"VIOLATION property=<id> replay=<path>": it did not.  Exit 2: the check itself failed.
"""
import collections, concurrent.futures, json, os, random, re, shutil, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'bin'))
from plan import PLAN   # noqa: E402

SPEC = os.path.join(VERIF, 'spec')
BUILD = os.path.join(VERIF, 'build')
TOOLS = '/opt/veriftools/tla/tla2tools.jar'
DEPS = '/opt/veriftools/tla/CommunityModules-deps.jar'
MEM_KB = 6 * 1024 * 1024     # address space of the driver

def env():
    e = dict(os.environ)
    e.update(HOME='/root', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true',
             CARGO_TERM_COLOR='never', RUST_BACKTRACE='0')
    e['PATH'] = '/root/.cargo/bin:' + e.get('PATH', '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin')
    for k in ('RUSTFLAGS', 'CARGO_TARGET_DIR', 'JAVA_TOOL_OPTIONS', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTC_WRAPPER'):
        e.pop(k, None)
    return e

class ToolError(Exception):
    pass

def sh(cmd, timeout, cwd=None, extra=None, out=None):
    e = env()
    if extra:
        e.update(extra)
    try:
        return subprocess.run(cmd, cwd=cwd, env=e, timeout=timeout, stdout=out or subprocess.PIPE,
                              stderr=subprocess.STDOUT, text=True, errors='replace')
    except subprocess.TimeoutExpired as t:
        raise ToolError('timed out after %ds: %s' % (timeout, ' '.join(cmd)[:200])) from t

def build():
    """the driver, with the hooks if they still fit the code, otherwise without"""
    cargo = ['cargo', 'build', '--offline', '--quiet', '--manifest-path', os.path.join(VERIF, 'harness/Cargo.toml')]
    hooks = True
    target = os.path.join(BUILD, 'target')
    p = sh(cargo + ['--target-dir', target], 600, extra={'RUSTFLAGS': '--cfg algeo_verif -Awarnings'})
    if p.returncode != 0:
        hooks = False
        target = os.path.join(BUILD, 'target-nohooks')
        p2 = sh(cargo + ['--target-dir', target], 600, extra={'RUSTFLAGS': '-Awarnings'})
        if p2.returncode != 0:
            raise ToolError('the driver does not build:\n' + p.stdout[-3000:] + p2.stdout[-3000:])
        print('note: built without the hooks')
    return os.path.join(target, 'debug/algeo-conformance'), hooks

def compile_overrides():
    cls = os.path.join(BUILD, 'cls')
    src = os.path.join(VERIF, 'java/BigIntOverrides.java')
    os.makedirs(cls, exist_ok=True)
    p = sh(['javac', '-cp', TOOLS, '-d', cls, src], 120)
    if p.returncode != 0:
        raise ToolError('javac: ' + p.stdout)
    return cls

def tlc(module, cfg, wd, workers, timeout, heap='3g', extra_env=None, args=(), cwd=SPEC):
    meta = os.path.join(wd, 'meta-%s' % os.path.basename(cfg).replace('.cfg', ''))
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m', '-cp', ':'.join([TOOLS, DEPS, os.path.join(BUILD, 'cls')]),
           '-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:BigIntOverrides', 'tlc2.TLC',
           '-workers', str(workers), '-metadir', meta, '-noGenerateSpecTE', '-config', cfg, *args, module + '.tla']
    out = os.path.join(wd, 'tlc-%s.out' % os.path.basename(cfg).replace('.cfg', ''))
    with open(out, 'w') as f:
        p = sh(cmd, timeout, cwd=cwd, extra=extra_env, out=f)
    shutil.rmtree(meta, ignore_errors=True)
    text = open(out, errors='replace').read()
    return p.returncode, text

def self_test():
    """the Java arithmetic agrees with its TLA+ definitions"""
    wd = os.path.join(BUILD, 'selftest')
    shutil.rmtree(wd, ignore_errors=True)
    os.makedirs(wd)
    for f in os.listdir(SPEC):
        if f.endswith('.tla') or f == 'SelfTest.cfg':
            shutil.copy(os.path.join(SPEC, f), wd)
    # the same definitions under names that have no overrides
    for a in ('BigInt', 'Rat'):
        t = open(os.path.join(SPEC, a + '.tla')).read()
        t = t.replace('MODULE ' + a, 'MODULE %sRef' % a).replace('EXTENDS BigInt', 'EXTENDS BigIntRef')
        open(os.path.join(wd, a + 'Ref.tla'), 'w').write(t)
    rc, text = tlc('SelfTest', os.path.join(wd, 'SelfTest.cfg'), wd, 1, 600, cwd=wd)
    if rc != 0 or 'No error has been found' not in text:
        raise ToolError('SelfTest:\n' + tail(text))
    shutil.rmtree(wd, ignore_errors=True)

def counts(text):
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', text)
    if not m:
        return 0, 0
    return int(m[-1][0]), int(m[-1][1])

def tail(text, n=40):
    keep = [l for l in text.split('\n') if l.strip() and not l.startswith(('Parsing', 'Semantic', 'Linting', 'REPLAY'))]
    return '\n'.join(l[:2000] for l in keep[-n:])

# ---------------------------------------------------------------- machines

def run_machine(m, tier, wd):
    """model checks one design machine; returns its record and the behaviours it prints"""
    cfg = m['cfg']
    t0 = time.time()
    rc, text = tlc(m['module'], os.path.join(SPEC, cfg), wd, m.get('workers', 2), m.get('timeout', 700), heap=m.get('heap', '3g'))
    gen, dist = counts(text)
    if rc != 0 or 'No error has been found' not in text:
        raise ToolError('the design machine %s (%s) does not check:\n%s' % (m['module'], cfg, tail(text)))
    if dist < m['min_states']:
        raise ToolError('the design machine %s explored only %d states' % (cfg, dist))
    # a TLA+ string: undo its escapes
    lines = [json.loads(l)[len('REPLAY'):] for l in text.split('\n') if l.startswith('"REPLAY')]
    if m.get('replay', True) and not lines:
        raise ToolError('the design machine %s printed no behaviours' % cfg)
    rec = {'module': m['module'], 'config': cfg, 'states': dist, 'transitions': gen,
           'behaviours_generated': len(lines), 'wall_s': round(time.time() - t0, 1)}
    return rec, lines

def run_machines(plan, tier, wd, results):
    """every machine of the property, some at a time"""
    ms = [m for m in plan.get('machines', []) if tier == 'thorough' or not m.get('thorough')]
    with concurrent.futures.ThreadPoolExecutor(3) as ex:
        for rec, lines in ex.map(lambda m: run_machine(m, tier, wd), ms):
            results['machines'].append(rec)
            results['replay'].append(lines)

def behaviours(groups, cap, seed):
    """the behaviours to replay: all of them when their calls number at most cap, else an even sample of each group"""
    size = lambda l: l.count('"op":') + 1   # noqa: E731
    total = sum(size(l) for g in groups for l in g)
    if total <= cap:
        return [l for g in groups for l in g], total
    rng = random.Random(seed)
    out = []
    share = cap / len(groups)
    spare = 0.0
    # small groups first: what they do not use goes to the others
    for i, g in enumerate(sorted(groups, key=lambda g: sum(map(size, g)))):
        room = share + spare / (len(groups) - i)
        mine = sum(map(size, g))
        if mine <= room:
            out += g
            spare += share - mine
        else:
            keep = rng.sample(range(len(g)), max(1, int(len(g) * room / mine)))
            out += [g[j] for j in sorted(keep)]
            spare += share - room
    return out, total

# ------------------------------------------------------------------ traces

def finish_partial(path):
    """completes the line of a call that ended the process"""
    data = open(path, 'rb').read()
    aborted = False
    if data and not data.endswith(b'\n'):
        i = data.rfind(b'\n') + 1
        last = data[i:]
        if b'"out"' in last or b'"op"' not in last:
            data = data[:i]
        else:
            data = data + b',"out":{"k":"abort"}}\n'
        aborted = True
        open(path, 'wb').write(data)
    return aborted

def drive(binary, mode, prop, path, seed, events, timeout, extra=()):
    cmd = ['bash', '-c', 'ulimit -v %d; exec "$0" "$@"' % MEM_KB, binary, mode, prop, path, str(seed), str(events), *extra]
    try:
        p = sh(cmd, timeout, cwd=os.path.dirname(path))
    except ToolError:
        finish_partial(path)
        raise
    aborted = finish_partial(path)
    if p.returncode != 0 and not aborted:
        raise ToolError('driver failed (%d): %s' % (p.returncode, p.stdout[-2000:]))
    return p.stdout

def check_trace(prop, module, path, wd, tag, timeout):
    """returns None or (line number, text); raises ToolError"""
    cfg = os.path.join(wd, 'Trace-%s.cfg' % tag)
    shutil.copy(os.path.join(SPEC, 'Trace.cfg'), cfg)
    n = sum(1 for _ in open(path))
    if n < 2:
        raise ToolError('empty trace ' + path)
    rc, text = tlc(module, cfg, wd, 8, timeout, heap='8g', extra_env={'TRACE': path, 'FOCUS': prop})
    gen, dist = counts(text)
    if 'Invariant Conforms is violated' in text:
        tr = text[text.index('Invariant Conforms is violated'):]
        ls = re.findall(r'/\\ l = (\d+)', tr)
        return int(ls[-1]), gen, dist
    if rc != 0 or 'No error has been found' not in text:
        raise ToolError('TLC failed on %s:\n%s' % (path, tail(text)))
    if dist != n:
        raise ToolError('TLC checked %d states for %d lines of %s' % (dist, n, path))
    return None, gen, dist

def cut_short(path):
    """the kind of the last outcome, if it ended the driver"""
    with open(path, 'rb') as f:
        f.seek(0, 2)
        f.seek(max(0, f.tell() - 200))
        last = f.read()
    m = re.search(rb'"out":\{"k":"(timeout|abort)"\}\}\s*$', last)
    return m.group(1).decode() if m else None

def summarize(path, limit=3):
    ops = collections.Counter()
    outs = collections.Counter()
    samples = []
    histories = 0
    for i, l in enumerate(open(path)):
        if l.startswith('{"op":"begin"'):
            histories += 1
            continue
        m = re.match(r'\{"op":"([^"]*)"', l)
        ops[m.group(1)] += 1
        k = re.search(r'"out":\{"k":"(\w+)"(?:,"m":"(\w+)")?', l)
        outs[k.group(1) + (':' + k.group(2) if k.group(2) else '')] += 1
        if len(samples) < limit and i % 997 == 37 and len(l) < 700:
            samples.append(json.loads(l))
    return histories, ops, outs, samples

def violation(prop, what, lines):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s.ndjson' % (prop, time.strftime('%Y%m%dT%H%M%S') + '-%d' % os.getpid()))
    with open(path, 'w') as f:
        for l in lines:
            f.write(l if l.endswith('\n') else l + '\n')
    print(what)
    for l in lines[-1:]:
        print('   ' + l.strip()[:1500])
    print('VIOLATION property=%s replay=%s' % (prop, path))
    sys.stdout.flush()

def report(prop, module, path, bad, how):
    """the history, up to the call that the specification does not allow"""
    lines = open(path).read().split('\n')
    b = bad
    while b > 0 and not lines[b - 1].startswith('{"op":"begin"'):
        b -= 1
    violation(prop, 'line %d of the %s trace is not a behaviour of %s:' % (bad, how, module), lines[max(b - 1, 0):bad])

def main():
    prop = sys.argv[1]
    if prop == '--setup':
        try:
            build()
            compile_overrides()
            self_test()
        except ToolError as e:
            print('ERROR: %s' % e)
            return 2
        return 0
    if len(sys.argv) > 3 and sys.argv[2] == '--replay':
        # checks a stored history again, as it was recorded
        compile_overrides()
        wd = os.path.join(BUILD, 'run', '%s-%d' % (prop, os.getpid()))
        os.makedirs(wd, exist_ok=True)
        module = PLAN[prop]['traces'][0]['module']
        path = os.path.abspath(sys.argv[3])
        bad = check_trace(prop, module, path, wd, 'stored', 800)[0]
        shutil.rmtree(wd, ignore_errors=True)
        if bad is None:
            print('%s is a history of %s' % (path, module))
            return 0
        report(prop, module, path, bad, 'stored')
        return 1
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    plan = PLAN[prop]
    t0 = time.time()
    wd = os.path.join(BUILD, 'run', '%s-%d' % (prop, os.getpid()))
    os.makedirs(wd, exist_ok=True)
    found = 0
    try:
        results = {'machines': [], 'replay': []}
        errs = []
        binary, hooks = build()
        compile_overrides()

        def machines():
            try:
                run_machines(plan, tier, wd, results)
            except BaseException as e:  # noqa: B902
                errs.append(e)
        th = threading.Thread(target=machines)
        th.start()

        traces = []
        replays = []
        states = trans = 0
        for t in plan.get('traces', []):
            rounds = t.get('thorough_rounds', 1) if tier == 'thorough' else 1
            for rnd in range(rounds):
                events = t['thorough'] if tier == 'thorough' else t['quick']
                path = os.path.join(wd, 'trace-%s-%d.ndjson' % (t['mode'].replace('/', '_'), rnd))
                for attempt in range(3):
                    drive(binary, 'record', t['mode'], path, seed * 1000 + rnd + 500 * attempt, events, 800 if tier == 'quick' else 7200)
                    tag = '%s-%d' % (t['mode'], rnd)
                    bad, gen, dist = check_trace(prop, t['module'], path, wd, tag, 800 if tier == 'quick' else 7200)
                    states += dist
                    trans += gen
                    h, ops, outs, samples = summarize(path)
                    traces.append({'driver': t['mode'], 'spec': t['module'], 'seed': seed * 1000 + rnd + 500 * attempt, 'histories': h,
                                   'events': dict(ops), 'outcomes': dict(outs), '_samples': samples})
                    if bad is not None or not cut_short(path):
                        break
                    # the library stopped the driver in a call that is another property's matter
                    print('note: %s recorded %d histories, then %s' % (t['mode'], h, cut_short(path)), flush=True)
                if bad is not None:
                    report(prop, t['module'], path, bad, 'recorded')
                    found += 1
                    break
                need = t.get('need', [])
                missing = [o for o in need if not ops.get(o)]
                if missing and not found:
                    raise ToolError('the trace has no %s' % missing)
                os.remove(path)
            if found:
                break
        th.join()
        if errs and not found:
            raise errs[0]

        replayed = 0
        generated = sum(len(g) for g in results['replay'])
        chosen, calls = behaviours(results['replay'], plan.get('cap', 60000) if tier == 'quick' else 2000000, seed)
        module = plan['traces'][0]['module']
        parts = [chosen[i:i + 60000] for i in range(0, len(chosen), 60000)]
        for n, part in enumerate(parts):
            if found:
                break
            rp = os.path.join(wd, 'behaviours.ndjson')
            op = os.path.join(wd, 'replay-out.ndjson')
            h = 0
            for attempt in range(4):
                with open(rp, 'w') as f:
                    f.write('\n'.join(part[h:]) + '\n')
                if os.path.exists(op):
                    os.remove(op)
                drive(binary, 'replay', prop, op, seed, 100000000, 800 if tier == 'quick' else 7200, extra=(rp,))
                bad, gen, dist = check_trace(prop, module, op, wd, 'replay-%d' % n, 800 if tier == 'quick' else 7200)
                states += dist
                trans += gen
                k, ops, outs, samples = summarize(op)
                h += k
                replays.append({'driver': 'replay', 'spec': module, 'behaviours': k, 'events': dict(ops), 'outcomes': dict(outs)})
                if bad is not None:
                    report(prop, module, op, bad, 'replayed')
                    found += 1
                    break
                if h == len(part):
                    break
                if not cut_short(op):
                    raise ToolError('the driver replayed %d of %d behaviours' % (h, len(part)))
                # the library stopped the driver in a call that is another property's matter
                print('note: replayed %d of %d behaviours, then %s' % (h, len(part), cut_short(op)), flush=True)
            replayed += h
            os.remove(op)

        ms = results['machines']
        samples = [s for t in traces for s in t.pop('_samples')][:4]
        samples += [{'behaviour_replayed': json.loads(x)} for x in chosen[:: max(1, len(chosen) // 2)][:2] if len(x) < 4000]
        ev = {
            'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
            'coverage': {
                'states': states + sum(m['states'] for m in ms),
                'transitions': trans + sum(m['transitions'] for m in ms),
                'traces_validated_against_impl': sum(t['histories'] for t in traces) + replayed,
                'samples': samples,
                'design_machines': ms,
                'trace_checks': traces,
                'replay_checks': replays,
                'behaviours_generated': generated,
                'behaviours_replayed_into_impl': replayed,
                'hooks': hooks,
            },
            'assumptions': plan.get('assumptions', []),
            'wall_s': round(time.time() - t0, 1),
            'violations': found,
        }
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        print('%s %s: %d states, %d histories and behaviours, %d violation(s), %.1fs'
              % (prop, tier, ev['coverage']['states'], ev['coverage']['traces_validated_against_impl'], found, time.time() - t0))
        return 1 if found else 0
    except ToolError as e:
        print('ERROR: %s' % e)
        return 1 if found else 2
    finally:
        shutil.rmtree(wd, ignore_errors=True)

if __name__ == '__main__':
    sys.exit(main())
