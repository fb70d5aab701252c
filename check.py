#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--secs N]   or   check.py --replay FILE

Builds the simulator with /repo's working tree, explores seeds in parallel,
confirms every failure in fresh processes, minimises it and writes a replay file.
Exit 0: held on everything explored.  1: VIOLATION.  Anything else: error of the check.
"""
import os, sys, json, time, subprocess, struct, shutil, re, concurrent.futures as cf
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, 'sim'))
sys.dont_write_bytecode = True
import build, meta
ENV = {k: v for k, v in os.environ.items() if k in ('PATH', 'HOME', 'LANG', 'TMPDIR')}
ENV['LC_ALL'] = 'C'
NW = 8

def run_one(exe, plan_path, timeout=120):
    """One plan in a fresh process -> (class, hash, message). class None: it held."""
    try:
        r = subprocess.run([exe, 'run', plan_path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=ENV)
    except subprocess.TimeoutExpired:
        return ('hang:wall', '-', 'did not finish in %d s' % timeout)
    out = r.stdout.decode('latin1'); err = r.stderr.decode('latin1')
    m = re.search(r'^RESULT (\S+) class=(\S+) hash=(\S+) .*?msg=(.*)$', out, re.M)
    if r.returncode in (0, 1) and m:
        return (None if m.group(1) == 'ok' else m.group(2), m.group(3), m.group(4))
    if r.returncode == 77:
        k = re.search(r'ERROR: AddressSanitizer:? ([\w-]+)', err); s = re.search(r'SUMMARY: AddressSanitizer:? (.*)', err)
        return ('memory:' + (k.group(1) if k else '?'), s.group(1).strip() if s else '-', s.group(1).strip() if s else err[-300:])
    if r.returncode == 78:
        k = re.search(r'SIM-CRASH (.*)', err)
        fr = re.findall(r'#\d+ 0x[0-9a-f]+ in (\S+) (/\S+src/\S+|/\S+include/crefl\S+|/\S+tool/\S+)', err)
        return ('crash:' + (k.group(1).split()[0] if k else '?'), (fr[0][0] + ' ' + fr[0][1]) if fr else '-', (k.group(1) if k else '') + (' in %s %s' % fr[0] if fr else ''))
    if r.returncode in (2, 3, 4):
        return ('error', '-', err[-500:])
    return ('crash:rc%d' % r.returncode, '-', err[-300:])

def cls_key(c): return c

class Fail(Exception): pass

def confirm(exe, path):
    a = run_one(exe, path); b = run_one(exe, path)
    if a[0] == 'error' or b[0] == 'error': raise Fail('simulator error: ' + a[2])
    if a[:2] != b[:2]: raise Fail('replay is not exact: %r then %r' % (a, b))
    return a

def minimise(exe, text, cls, tmp, secs):
    """ddmin over plan lines, then numbers; the violation class must stay the same."""
    t0 = time.time(); head = []; body = []
    for l in text.splitlines():
        (head if re.match(r'(crefl-sim-plan|check|seed)\b', l) else body).append(l)
    cnt = [0]
    def fails(lines):
        cnt[0] += 1; p = os.path.join(tmp, 'min%d-%d.plan' % (os.getpid(), cnt[0]))
        open(p, 'w').write('\n'.join(head + lines) + '\n')
        r = run_one(exe, p, 60); os.unlink(p); return r[0] == cls
    def left(): return secs - (time.time() - t0)
    with cf.ThreadPoolExecutor(NW) as ex:
        again = True
        while again and left() > 0:
          again = False; n = 2
          while len(body) >= 1 and left() > 0:
              size = max(1, len(body) // n); cands = [body[:i] + body[i + size:] for i in range(0, len(body), size)]
              hit = None
              for c, ok in zip(cands, ex.map(fails, cands)):
                  if ok and hit is None: hit = c
              if hit is not None: body = hit; n = max(n - 1, 2)
              elif size == 1: break
              else: n = min(len(body), n * 2)
          changed = True
          while changed and left() > 0:
              changed = False
              for i in range(len(body)):
                  if left() <= 0: break
                  parts = body[i].split(' ')
                  for j in range(1, len(parts)):
                      if left() <= 0: break
                      k, _, v = parts[j].partition('=')
                      if not v.isdigit() or v == '0' or k in ('k', 'seed', 'call', 'act'): continue
                      x = int(v); cand = sorted(set([0, 1, 2, x // 2, x - 1 if x < 200 else x // 16]))
                      cand = [c for c in cand if c < x]
                      cl = [body[:i] + [' '.join(parts[:j] + ['%s=%d' % (k, c)] + parts[j + 1:])] + body[i + 1:] for c in cand]
                      for c, ok in zip(cl, ex.map(fails, cl)):
                          if ok: body = c; parts = body[i].split(' '); changed = again = True; break
    return '\n'.join(head + body) + '\n', cnt[0]

def known(pid):
    out = []
    for l in open(os.path.join(V, 'known-findings.jsonl')) if os.path.exists(os.path.join(V, 'known-findings.jsonl')) else []:
        l = l.strip()
        if not l or l.startswith('#') or l.startswith('fixed:'): continue
        d = json.loads(l)
        if d.get('property') == pid: out.append(d)
    return out

def main():
    args = sys.argv[1:]
    if args and args[0] == '--replay':
        chk = re.search(r'^check (\S+)', open(args[1]).read(), re.M).group(1)
        exe = build.build(build.CHECKS[chk]); a = confirm(exe, args[1])
        print('REPLAY %s: %s' % (args[1], 'held' if a[0] is None else 'violates: %s: %s' % (a[0], a[2])))
        return 1 if a[0] else 0
    pid = args[0]; tier = os.environ.get('VERIF_TIER', 'quick'); secs = None
    for i, a in enumerate(args):
        if a == '--tier': tier = args[i + 1]
        if a == '--secs': secs = float(args[i + 1])
    seed = int(os.environ.get('VERIF_SEED', '1'))
    M = meta.META[pid]
    if secs is None: secs = M.get('quick_secs', 22) if tier == 'quick' else float(os.environ.get('VERIF_THOROUGH_SECS', '600'))
    t0 = time.time()
    ev = os.path.join(V, 'evidence', pid + '.json'); os.makedirs(os.path.dirname(ev), exist_ok=True)
    if os.path.exists(ev): os.unlink(ev)
    group = build.CHECKS[pid]
    exe = build.build(group)
    t_build = time.time() - t0
    tmp = os.path.join(V, 'build', 'run-%s-%d' % (pid, os.getpid())); os.makedirs(tmp)
    try:
        return explore(pid, tier, seed, secs, exe, tmp, M, t0, t_build, ev)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def report(pid, exe, text, tmp, note):
    """Confirm, minimise, confirm again, save. Returns True if reported."""
    p0 = os.path.join(tmp, 'found.plan'); open(p0, 'w').write(text)
    a = confirm(exe, p0)
    if a[0] is None: raise Fail('a failure seen during exploration (%s) does not reproduce in a fresh process' % note)
    mt, trials = minimise(exe, text, a[0], tmp, 60)
    os.makedirs(os.path.join(V, 'replays'), exist_ok=True)
    sd = re.search(r'^seed (\d+)', text, re.M).group(1)
    rp = os.path.join(V, 'replays', '%s-%s.plan' % (pid, sd))
    p1 = os.path.join(tmp, 'minimal.plan'); open(p1, 'w').write(mt); b = confirm(exe, p1)
    if b[0] != a[0]: mt = text; b = a
    body = '# %s: %s\n# first seen with seed %s; minimised with %d replays; outcome id %s\n' % (b[0], b[2].replace('\n', ' ')[:600], sd, trials, b[1])
    open(rp, 'w').write(body + mt)
    print('violation class %s: %s' % (b[0], b[2]))
    print('seed %s; minimal plan (%d lines, from %d):' % (sd, len(mt.splitlines()), len(text.splitlines())))
    print(mt)
    print('replay: python3 check.py --replay %s' % rp)
    print('VIOLATION property=%s replay=%s' % (pid, rp)); sys.stdout.flush()
    return True

def explore(pid, tier, seed, secs, exe, tmp, M, t0, t_build, ev):
    viol = 0
    # 1. findings on record: each is replayed; it must still fail the recorded way or hold
    for k in known(pid):
        p = os.path.join(V, k['replay']); a = confirm(exe, p)
        if a[0] is None: print('note: known finding no longer fails: %s' % k['what'])
        elif a[0] == k['class'] and k.get('match', '') in a[2]: print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
        else: report(pid, exe, open(p).read(), tmp, 'known-finding replay fails in another way'); viol += 1
    # 2. committed scripts: hand-written schedules that once mattered, replayed first
    script_runs = 0
    sd = os.path.join(V, 'scripts')
    fs = [f for f in sorted(os.listdir(sd)) if f.startswith(pid + '-') and f.endswith('.plan')] if os.path.isdir(sd) else []
    with cf.ThreadPoolExecutor(NW) as ex:
        for f, a in zip(fs, list(ex.map(lambda f: run_one(exe, os.path.join(sd, f), 300), fs))):
            script_runs += 1
            if a[0] and not viol: report(pid, exe, open(os.path.join(sd, f)).read(), tmp, 'script ' + f); viol += 1
    # 3. seeded search
    base = seed * 1000000007 % (1 << 40)
    stats = []; deadline = time.time() + secs
    if not viol:
        outs = []
        def spawn(w, start, left):
            out = os.path.join(tmp, 'w%d.%d' % (w, len(outs))); outs.append(out)
            return (out, subprocess.Popen([exe, 'fuzz', pid, tier, str(start), str(NW), '1000000000', '%.2f' % left, out], stdout=subprocess.DEVNULL, stderr=open(out + '.err', 'wb'), env=ENV))
        failed = None; live = {w: spawn(w, base + w, secs) for w in range(NW)}
        while live and failed is None:
            time.sleep(0.05)
            for w, (out, p) in list(live.items()):
                rc = p.poll()
                if rc is None:
                    if time.time() > deadline + 150: p.kill(); p.wait(); failed = (out, 'stuck')
                    continue
                del live[w]
                if rc != 0: failed = (out, rc); break
                left = deadline - time.time()          # a worker that has grown too big is replaced
                if left > 0.3: live[w] = spawn(w, json.load(open(out + '.json'))['next'], left)
        for w, (out, p) in live.items(): p.kill(); p.wait()
        if failed is not None:
            out, rc = failed
            if rc == 1: text = open(out + '.plan').read()
            else:
                s, n = struct.unpack('QQ', open(out + '.cur', 'rb').read()[:16])
                text = subprocess.run([exe, 'gen', pid, str(s), tier], stdout=subprocess.PIPE, env=ENV).stdout.decode()
            try: report(pid, exe, text, tmp, 'worker %s ended %s' % (os.path.basename(out), rc)); viol += 1
            except Fail:
                sys.stderr.write(open(out + '.err', errors='replace').read()[-4000:]); raise
        for out in outs:
            if os.path.exists(out + '.json'): stats.append(json.load(open(out + '.json')))
    # 4. determinism: the same seeds in fresh processes give the same event-log hash
    recheck = 0
    if not viol:
        ss = [str(base + i * 37 % 400) for i in range(24)]
        def hashes(order):
            r = subprocess.run([exe, 'hash', pid, tier] + order, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV)
            if r.returncode: raise Fail('hash run failed: ' + r.stderr.decode('latin1')[-500:])
            return {l.split()[0]: l.split()[1:] for l in r.stdout.decode().splitlines()}
        # what happened is the same in any order; the steps it took too, where the addresses are the same
        h0, h1, h2 = hashes(ss), hashes(list(reversed(ss))), hashes(ss)
        if h0 != h2: raise Fail('nondeterminism across processes: ' + str([k for k in h0 if h0[k] != h2.get(k)]))
        odd = [k for k in h0 if h0[k][0] != h1[k][0]]
        for out in outs:
            if os.path.exists(out + '.nd'): odd += open(out + '.nd').read().split()
        for s in odd[:12]:          # a process of its own is what a replay gets: nothing in it may vary
            if hashes([s]) != hashes([s]): raise Fail('nondeterminism: seed ' + s)
        recheck = len(ss)
    # 5. evidence
    def tot(k): return sum(s[k] for s in stats)
    def merge(k):
        d = {}
        for s in stats:
            for a, b in s[k].items(): d[a] = d.get(a, 0) + b
        return dict(sorted(d.items()))
    runs = tot('runs'); wall = max(sum(s['wall'] for s in stats) / NW, 0.001)
    samples = [s for st in stats for s in st['samples']][:3]
    if not samples and stats: samples = ['seed %d' % stats[0]['start']]
    e = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
         'coverage': {'evaluations': runs, 'distinct_nontrivial': tot('distinct'),
            'rule': M['rule'] + ' Distinct: counted by the hash of the run\'s whole event log (schedule, system calls, faults, results); ' + M.get('nontrivial', 'every counted run executes real operations of the code under test.'),
            'samples': samples or ['(stopped at the first violation)'],
            'runs_per_hour': int(runs / wall * 3600), 'seeds': {'first': base, 'stride_workers': NW, 'count': runs}, 'simulated_steps': tot('ticks'),
            'simulated_time_note': 'one step is one basic block of the code under test; a simulated system call costs 200 to 100000 steps', 'workload_operations': tot('ops'),
            'faults_injected_total': tot('fired'), 'faults_injected_by_kind': merge('faults'), 'runs_with_faults_or_switches': tot('runs_with_faults'), 'context_switches': tot('switches'),
            'probes': merge('probes'), 'code_edges_reached_max_worker': max([s['edges'] for s in stats] + [0]), 'same_seed_rechecks': tot('rechecked') + recheck, 'scripted_replays': script_runs,
            'real_components': M['real'], 'stubbed_components': M['stub']},
         'assumptions': M.get('assume', []), 'wall_s': round(time.time() - t0, 2), 'violations': viol}
    json.dump(e, open(ev, 'w'), indent=1)
    print('%s %s: %d runs, %d distinct, %d faults, %d violations, %.0f s (build %.0f s)' % (pid, tier, runs, tot('distinct') if stats else 0, tot('fired'), viol, time.time() - t0, t_build))
    return 1 if viol else 0

if __name__ == '__main__':
    try: rc = main()
    except Fail as f: sys.stderr.write('CHECK ERROR: %s\n' % f); rc = 3
    sys.stdout.flush(); os._exit(rc)
