#!/usr/bin/env python3
"""mutate.py OUT BASE_REPO WORKERS N SEED PART...: measures the monitors on small random changes.

For each PART, N changes of its source are made one at a time in scratch copies (/tmp/mut), built into
the part's harness and run against its monitors. OUT gets one JSON line per change; those that
nothing noticed are for reading. Not part of any check."""
import sys, os, re, json, random, subprocess, shutil, threading, queue, time
P = 'pallets/'
PARTS = {
 'staking': (['parachain-staking/src/' + f for f in ('lib.rs', 'types.rs', 'inflation.rs', 'delegation_requests.rs', 'auto_compound.rs', 'set.rs')], 'mon-staking', ['C38'], 1500),
 'release': (['linear-release/src/' + f for f in ('lib.rs', 'impls.rs', 'types.rs')], 'mon-release', ['C23'], 8000),
 'proxy': (['proxy-bonding/src/' + f for f in ('lib.rs', 'functions.rs')], 'mon-proxy', ['C25'], 4000),
 'funding': (['funding/src/lib.rs', 'funding/src/types.rs', 'funding/src/functions/*.rs', 'funding/src/traits.rs', 'funding/src/storage/*.rs', 'funding/src/types/*.rs'], 'mon-funding', ['C27', 'C48', 'C47'], 2500),
 'claims': (['dispenser/src/lib.rs', 'dispenser/src/extensions.rs', 'polimec-receiver/src/lib.rs'], 'mon-claims', ['C36', 'C37'], 8000),
 'oracle': (['oracle-ocw/src/lib.rs', 'oracle-ocw/src/types.rs', 'oracle-ocw/src/traits.rs'], 'mon-oracle', ['C44'], 4000),
 'vesting': (['on-slash-vesting/src/lib.rs'], 'mon-vesting', ['C21'], 20000),
 'democracy': (['democracy/src/' + f for f in ('lib.rs', 'types.rs', 'vote.rs', 'conviction.rs', 'vote_threshold.rs')], 'mon-democracy', ['C01'], 1200),
 'elections': (['elections-phragmen/src/lib.rs'], 'mon-elections', ['C12'], 2500),
 'runtime': (['../runtimes/polimec/src/lib.rs', '../runtimes/polimec/src/xcm_config.rs', '../runtimes/shared-configuration/src/*.rs'], 'mon-runtime', ['C49', 'C50', 'C51', 'C52'], 1000),
 'common': (['../polimec-common/common/src/' + f for f in ('lib.rs', 'credentials/mod.rs', 'migration_types.rs', 'assets.rs')], 'mon-funding', ['C27'], 2500),
}

def live_lines(src):
    """numbers of lines that are code of the pallet proper"""
    out, skip, depth = [], None, 0
    lines = src.split('\n')
    pend = False
    for i, l in enumerate(lines):
        s = l.strip()
        if re.match(r'#\[cfg\((test|feature = "(runtime-benchmarks|try-runtime)"|any\(.*(runtime-benchmarks|try-runtime))', s) or s.startswith('#[cfg(any(test') or s.startswith('#[cfg(all(test'):
            pend = True
        o, c = l.count('{'), l.count('}')
        if pend and skip is None and not s.startswith('#'):
            if o > c:
                skip = depth; pend = False
            elif s.endswith(';') or s.endswith(',') or o:
                pend = False
                depth += o - c
                continue
        depth += o - c
        if skip is not None:
            if depth <= skip: skip = None
            continue
        if pend or not s or s.startswith('//') or s.startswith('#') or s.startswith('use ') or s.startswith('pub use') or s.startswith('log::') or 'log!' in s or s.startswith('const_assert'):
            continue
        out.append(i)
    return out

SWAPS = [(r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '),
 (r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' / '), (r' / ', ' * '), (r' && ', ' || '), (r' \|\| ', ' && '),
 (r'saturating_add\(', 'saturating_sub('), (r'saturating_sub\(', 'saturating_add('), (r'checked_add\(', 'checked_sub('), (r'checked_sub\(', 'checked_add('),
 (r' \+= ', ' -= '), (r' -= ', ' += '), (r'\.min\(', '.max('), (r'\.max\(', '.min('), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
 (r'\.is_some\(\)', '.is_none()'), (r'\.is_none\(\)', '.is_some()'), (r'\.is_empty\(\)', '.len() == 1'), (r'\.is_zero\(\)', '.is_one()'), (r'\bany\(', 'all('), (r'\ball\(', 'any('),
 (r'\bif (?!let)', 'if !'), (r'::zero\(\)', '::one()'), (r'::one\(\)', '::zero()'), (r'\.iter\(\)', '.iter().skip(1)'), (r'\.rev\(\)', ''),
 (r'Precision::Exact', 'Precision::BestEffort'), (r'Preservation::Expendable', 'Preservation::Preserve'), (r'Fortitude::Polite', 'Fortitude::Force'),
 (r'\.saturating_mul\(', '.saturating_add('), (r'\b(\d+)u(8|32|64|128)\b', lambda m: str(int(m.group(1)) + 1) + 'u' + m.group(2)),
 (r'Ok\(true\)', 'Ok(false)'), (r'unwrap_or_default\(\)', 'unwrap_or(Bounded::max_value())'), (r'HoldReason::Evaluation', 'HoldReason::Participation'),
 (r'\.sort_by', '.sort_unstable_by'), (r'filter\(\|', 'filter(|_| true).filter(|'), (r'Percent::from_percent\((\d+)\)', lambda m: f'Percent::from_percent({int(m.group(1))+1})'),
 (r'_ROUND_DURATION|RoundDuration::get\(\)', None), (r'\.0\b', '.1'), (r'\.1\b', '.0'), (r'ensure_root\(', 'ensure_signed('), (r'ensure_signed\(', 'ensure_root(')]

def mutants(src):
    lines = src.split('\n')
    live = live_lines(src)
    ls = set(live)
    out = []
    for i in live:
        l = lines[i]
        code = l.split('//')[0]
        generic = re.search(r'\b(fn|impl|where|type|struct|enum|trait)\b', code)
        for pat, rep in SWAPS:
            if rep is None: continue
            if generic and pat.strip() in ('<', '>', '<=', '>='): continue
            for m in re.finditer(pat, code):
                r = rep(m) if callable(rep) else rep
                new = code[:m.start()] + r + code[m.end():]
                out.append((i, i, new, f'{m.group(0).strip()} -> {r.strip()}'))
        s = code.strip()
        # delete a statement
        if s.endswith(';') and not re.match(r'(let|return|type|const|pub|}|mod|fn|static)\b', s) and s.count('(') == s.count(')') and s not in ('});', ');', '}') and i > 0:
            prev = lines[i - 1].strip()
            if prev == '' or prev[-1] in ';{},' or prev.startswith('//'):
                out.append((i, i, '', 'delete: ' + s[:80]))
        # delete a multi-line ensure!
        if re.match(r'(ensure!|Self::deposit_event|<?T::|Self::|<)', s) and not s.endswith(';'):
            j = i
            while j < len(lines) - 1 and j < i + 8 and not lines[j].strip().endswith(');') and not lines[j].strip().endswith(')?;'): j += 1
            prev = lines[i - 1].strip()
            if j < i + 8 and (prev == '' or prev[-1] in ';{}' or prev.startswith('//')):
                out.append((i, j, '', 'delete: ' + ' '.join(x.strip() for x in lines[i:j + 1])[:100]))
    return out

def sh(cmd, cwd=None, t=600, env=None):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=t)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 99, 'timeout'

def main():
    out, base, workers, n, seed = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5])
    parts = sys.argv[6:]
    import glob
    jobs = queue.Queue()
    alljobs = []
    for part in parts:
        rnd = random.Random(f'{part}{seed}')
        files, pkg, props, hist = PARTS[part]
        ms = []
        for pat in files:
            for f in sorted(glob.glob(os.path.join(base, 'pallets', pat))):
                rel = os.path.relpath(f, base)
                if re.search(r'(test|mock|bench|weights|instantiator)', rel): continue
                ms += [(rel,) + m for m in mutants(open(f).read())]
        if part == 'runtime':
            # only what the harness takes out of the runtime
            gen = max(glob.glob('/verif/target/release/build/mon-runtime-*/out/poly.rs') + glob.glob('/tmp/wt/release/build/mon-runtime-*/out/poly.rs'), key=os.path.getmtime)
            g = re.sub(r'\s', '', open(gen).read())
            ms = [m for m in ms if 'shared-configuration' in m[0] or (lambda s: len(s) > 6 and s in g)(re.sub(r'\s|,$', '', open(f'{base}/{m[0]}').read().split('\n')[m[1]]))]
        rnd.shuffle(ms)
        print(part, len(ms), 'candidates', flush=True)
        alljobs += [(part, m) for m in ms[:n]]
    for j in alljobs: jobs.put(j)
    known = {e['signature'] for e in json.load(open('/verif/known-findings.json'))['known']}
    env0 = dict(os.environ, PATH='/root/.cargo/bin:' + os.environ['PATH'], RUSTUP_TOOLCHAIN='1.81.0-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', SKIP_WASM_BUILD='1', CARGO_TERM_COLOR='never', MON_THREADS='')
    lock = threading.Lock()
    done = set()
    if os.path.exists(out):
        for l in open(out):
            d = json.loads(l); done.add((d['file'], d['line'], d['what'], d['col']))
    fo = open(out, 'a')
    def work(k):
        W = f'/tmp/mut/w{k}'
        if not os.path.exists(W + '/repo'):
            os.makedirs(W, exist_ok=True)
            sh(['rsync', '-a', '--exclude', 'target', '--exclude', '.git', base + '/', W + '/repo/'])
            sh(['rsync', '-a', '--exclude', 'target', '/verif/harness/', W + '/harness/'])
            sh(['bash', '-c', f"grep -rl '\"/repo' {W}/harness --include=Cargo.toml --include=build.rs | xargs sed -i 's|\"/repo/|\"{W}/repo/|g'"])
            os.makedirs(W + '/vv', exist_ok=True)
        shutil.copy('/verif/known-findings.json', W + '/vv/')
        env = dict(env0, CARGO_TARGET_DIR=W + '/target')
        while True:
            try: part, (rel, i, j, new, what) = jobs.get_nowait()
            except queue.Empty: return
            files, pkg, props, hist = PARTS[part]
            p = f'{W}/repo/{rel}'
            src = open(f'{base}/{rel}').read()
            lines = src.split('\n')
            key = (rel, i + 1, what, new)
            if key in done: continue
            lines[i:j + 1] = [new]
            open(p, 'w').write('\n'.join(lines))
            rec = dict(part=part, file=rel, line=i + 1, what=what, col=new, old=src.split('\n')[i].strip()[:140])
            rc, o = sh(['nice', '-n', '15', 'cargo', 'build', '--offline', '--release', '-p', pkg], cwd=W + '/harness', env=env, t=900)
            if rc != 0:
                rec['result'] = 'nobuild'
            else:
                rec['result'] = 'SURVIVED'; rec['by'] = ''
                for prop in props:
                    rc, o = sh(['nice', '-n', '15', f'{W}/target/release/{pkg}', '--prop', prop, '--tier', 'quick', '--seed', '1', '--verif', W + '/vv', '--build-s', '1', '--histories', str(hist)], env=env, t=240)
                    m = re.search(r'other=\{(.*)\}', o)
                    # what the unchanged tree reports as well does not count
                    rest = [s for s in re.findall(r'\[([^\[\]\x22]+)\]\\?"', m.group(1)) if s not in known] if m else []
                    if rc == 1 or rest:
                        v = re.search(r'violated: (\[[^\]]*\])', o)
                        rec['result'] = 'killed'; rec['by'] = f"{prop} {v.group(1) if v else ''} {rest}"[:200]; break
                    if rc != 0:
                        rec['result'] = 'killed-weak'; rec['by'] = f'rc={rc} ' + o[-200:]
            open(p, 'w').write(src)
            with lock:
                fo.write(json.dumps(rec) + '\n'); fo.flush()
    ts = [threading.Thread(target=work, args=(k,)) for k in range(workers)]
    for t in ts: t.start()
    for t in ts: t.join()
    rs = [json.loads(l) for l in open(out)]
    import collections
    print(collections.Counter((r['part'], r['result']) for r in rs))

main()
