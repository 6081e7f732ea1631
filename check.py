#!/usr/bin/env python3
"""Decides one property: compiles the harnesses and /repo's current sources to LLVM IR, executes them symbolically with
build/vpse (Z3 decides every branch and assertion), replays counterexamples against the native build, writes evidence."""
import concurrent.futures as cf, json, os, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.abspath(__file__)); B = V + '/build'; REPO = os.environ.get('VP_REPO', '/repo'); MAIN = REPO + '/src/main/cpp'
sys.path.insert(0, V)
from units import PROPS, LIBDIR  # noqa: E402

def sh(cmd, **k): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)
class CheckError(Exception): pass

BASE = ['-std=c++17', '-I' + MAIN, '-DBALAU_DEBUG', '-include', 'complex', '-include', 'fstream', '-include', 'boost/filesystem/fstream.hpp', '-Wno-deprecated-declarations', '-w']

def gen_config():
  """The build's configuration header, regenerated from the current template."""
  on = {'BALAU_ENABLE_ZLIB', 'BALAU_ENABLE_ZIP', 'BALAU_ENABLE_CURL', 'BALAU_ENABLE_HTTP', 'BALAU_ENABLE_STACKTRACES', 'BOOST_BEAST_NEW_API'}
  t = open(MAIN + '/Balau/BalauConfig.hpp.in').read()
  t = re.sub(r'#cmakedefine\s+(\w+).*', lambda m: ('#define ' if m.group(1) in on else '//undef ') + m.group(1), t)
  os.makedirs(B + '/inc/Balau', exist_ok=True); p = B + '/inc/Balau/BalauConfig.hpp'
  if not os.path.exists(p) or open(p).read() != t: open(p, 'w').write(t)

class Build:
  """One harness translation unit with one set of definitions; sources of /repo are compiled with it."""
  def __init__(self, work, cpp, defs, src, xflags, threads):
    self.work, self.cpp, self.defs, self.src, self.xflags, self.threads = work, cpp, defs, src, xflags, threads
    self.tag = re.sub(r'\W', '_', os.path.basename(cpp)[:-4] + ''.join('_' + d for d in defs))[:80]
  def d(self): return ['-D' + x for x in self.defs] + self.xflags + ['-I' + V + '/engine/rt', '-I' + V + '/harness']
  def bitcode(self):
    flags = ['-O1', '-g1', '-emit-llvm', '-c', '-fno-vectorize', '-fno-slp-vectorize', '-isystem', B + '/inc', '-I' + B + '/inc']
    out = []
    for i, s in enumerate([V + '/harness/' + self.cpp] + [MAIN + '/Balau/' + x for x in self.src]):
      o = f'{self.work}/{self.tag}.{i}.bc'; r = sh(['clang++'] + BASE + flags + self.d() + [s, '-o', o])
      if r.returncode: raise CheckError(f'compiling {s} to IR failed:\n' + r.stdout[-3000:])
      out.append(o)
    return out
  def native(self, mode):
    o = f'{self.work}/{self.tag}.{mode}'
    x = {'plain': ['-O0'], 'asan': ['-O1', '-g1', '-fsanitize=address', '-fno-omit-frame-pointer'], 'zero': ['-O0', '-ftrivial-auto-var-init=zero'], 'pattern': ['-O0', '-ftrivial-auto-var-init=pattern']}[mode]
    libs = ['-ldl', '-lpthread', '-lboost_filesystem', '-lboost_system', '-lboost_iostreams', '-lboost_thread', '-lboost_serialization', '-licuuc', '-licudata', '-licui18n', '-licuio', '-lz', '-lzip', '-lssl', '-lcrypto', '-lcurl', '-lrt']
    r = sh(['clang++'] + BASE + x + ['-I' + B + '/inc', '-DVP_NATIVE', '-rdynamic'] + self.d() + [V + '/harness/' + self.cpp] + [MAIN + '/Balau/' + s for s in self.src] + [B + '/replay.o', '-o', o] + [l for l in libs if self.have(l)])
    if r.returncode: raise CheckError('native build failed:\n' + r.stdout[-3000:])
    return o
  @staticmethod
  def have(l): return l in ('-ldl', '-lpthread', '-lrt') or os.path.exists(f'{LIBDIR}/lib{l[2:]}.so')

def write_inputs(path, inputs):
  with open(path, 'w') as f:
    for n, h in inputs: f.write(f'{n.replace(" ", "_")} {h or "-"}\n')

def run_native(binary, inp, entry, timeout=15, env=None, cwd=None):
  e = dict(os.environ); e.update(env or {})
  try: r = subprocess.run([binary, inp, entry], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout, env=e, cwd=cwd)
  except subprocess.TimeoutExpired: return 'timeout', ''
  return r.returncode, r.stdout

def run_engine(bcs, entry, out, opts, libs, timeout):
  if os.path.exists(out): os.unlink(out)
  cmd = [B + '/vpse', '--out', out, '--entry', entry, '--src-prefix', REPO + '/src/main/cpp/'] + [x for l in libs for x in ('--lib', l)] + opts + bcs + [B + '/support.bc', B + '/stdinst.bc']
  r = sh(cmd, timeout=timeout)
  recs = [json.loads(l) for l in open(out, errors='replace')] if os.path.exists(out) else []
  if not any(x['type'] == 'summary' for x in recs): raise CheckError(f'engine failed on {entry}: ' + r.stdout[-2000:])
  return recs, r.stdout

def known_findings(pid):
  out = []
  p = V + '/known_findings.txt'
  if os.path.exists(p):
    for l in open(p):
      m = re.match(r'finding: property=(\S+) unit=(\S+) match=/(.*?)/ :: (.*)', l)
      if m and m.group(1) == pid: out.append((m.group(2), re.compile(m.group(3)), m.group(4).strip()))
  return out

def main():
  pid = sys.argv[1]; tier = 'quick'
  if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
  only = sys.argv[sys.argv.index('--unit') + 1] if '--unit' in sys.argv else None
  keep = '--keep' in sys.argv
  t0 = time.time(); P = PROPS[pid]; work = f'{V}/work/{pid}-{os.getpid()}'; os.makedirs(work, exist_ok=True); os.makedirs(V + '/evidence', exist_ok=True); os.environ['VP_SCRATCH'] = work
  if not (os.path.exists(B + '/vpse') and os.path.exists(B + '/support.bc') and os.path.exists(B + '/replay.o')):
    r = sh([V + '/setup.sh'])
    if r.returncode: print(r.stdout); return 2
  gen_config()
  units = [u for u in P['units'] if (not only or u['entry'] == only) and tier in u.get('tiers', ('quick', 'thorough'))]
  builds = {}
  for u in units:
    u['_defs'] = tuple((u.get('defs') or {}).get(tier, ())); k = (u['cpp'], u['_defs'], tuple(u.get('src', ())), tuple(u.get('xflags', ())))
    if k not in builds: builds[k] = Build(work, u['cpp'], u['_defs'], list(u.get('src', ())), list(u.get('xflags', ())), False)
    u['_b'] = builds[k]
  errors, violations, known_hits = [], [], []
  ev_units, samples, validated, mismatched = [], [], 0, []
  tot = dict(paths=0, branches=0, forks=0, z3_queries=0, z3_seconds=0.0, domain_queries=0, model_hits=0, assert_checks=0, assert_queries=0, instructions=0, thread_switches=0, pruned=0)
  functions = set(); kf = known_findings(pid)
  ex = cf.ThreadPoolExecutor(8)
  try:
    bc = {id(b): ex.submit(b.bitcode) for b in builds.values()}
    nat = {id(b): ex.submit(b.native, 'plain') for b in builds.values() if any(u['_b'] is b and not u.get('threads') for u in units)}
    asan = {}
    for u in units:
      b = u['_b']; name = u['entry']
      try: bcs = bc[id(b)].result()
      except CheckError as e: errors.append(str(e)); continue
      kfu = [x for x in kf if x[0] == name]
      budget = u.get('time', {}).get(tier, 240 if tier == 'quick' else 700)
      opts = ['--time', str(budget), '--samples', '40' if tier == 'quick' else '120', '--max-viol', '40' if kfu else '1'] + list(u.get('opts', {}).get(tier, u.get('opts', {}).get('all', [])))
      u['_opts'] = list(u.get('opts', {}).get(tier, u.get('opts', {}).get('all', []))); libs = u.get('libs', [])
      try: recs, log = run_engine(bcs, name, f'{work}/{name}.jsonl', opts, libs, budget + 120)
      except (CheckError, subprocess.TimeoutExpired) as e: errors.append(f'{name}: {e}'); continue
      s = [r for r in recs if r['type'] == 'summary'][-1]
      for k in tot: tot[k] += s.get(k, 0)
      functions.update(s['functions'])
      vio = [r for r in recs if r['type'] == 'violation']; inc = [r for r in recs if r['type'] == 'incomplete']; paths = [r for r in recs if r['type'] == 'path']
      # counterexamples
      new = []; known = 0
      for v in vio:
        text = f"{v['kind']}: {v['msg']} {json.dumps(v['inputs'])} {' '.join(v['stack'])}"
        m = [x for x in kfu if x[1].search(text)]
        if m: known_hits.append(m[0]); known += 1
        else: new.append(v)
      for n, v in enumerate(new[:3]):
        rdir = f'{V}/replay/{pid}'; os.makedirs(rdir, exist_ok=True); rp = f'{rdir}/{name}-{n}.in'; write_inputs(rp, v['inputs'])
        with open(rp + '.json', 'w') as f: json.dump(dict(property=pid, unit=name, harness=b.cpp, defines=list(b.defs), violation=v), f, indent=1)
        ok, how = confirm(u, b, bcs, v, rp, name, work, asan, libs)
        if ok: violations.append((v, rp, how, name))
        else: errors.append(f"{name}: counterexample not confirmed on the native build ({how}): {v['kind']}: {v['msg']} inputs {v['inputs']} stack {v['stack'][:6]}")
      for r in inc: errors.append(f"{name}: incomplete: {r['msg']} stack {r['stack'][:6]}")
      if not vio or known:
        if s['timeout']: errors.append(f'{name}: exploration did not finish within {budget}s')
        if s['crashed']: errors.append(f"{name}: {s['crashed']} engine process(es) crashed")
        if s['z3_unknown']: errors.append(f'{name}: solver returned unknown')
        if not inc and not s['timeout'] and not new:
          for lab in u.get('reach', []):
            if not s['reached'].get(lab): errors.append(f'{name}: vacuity: label "{lab}" was never reached')
      # validation of sampled paths against the native build
      nv = 0
      if not u.get('threads') and not new and paths:
        try: binary = nat[id(b)].result()
        except CheckError as e: errors.append(str(e)); continue
        def val(i_p):
          i, p = i_p; f = f'{work}/{name}.p{i}.in'; write_inputs(f, p['inputs']); rc, o = run_native(binary, f, name, 60, cwd=work)
          got = [l.split(' ')[1:] for l in o.splitlines() if l.startswith('VP-OBS ')]; want = [[n.replace(' ', '_'), h] for n, h in p['obs']]
          return (rc == 0 and [[g[0], g[1] if len(g) > 1 else ''] for g in got] == want), rc, got, want, p
        for ok, rc, got, want, p in ex.map(val, list(enumerate(paths))):
          if ok: nv += 1
          else: mismatched.append(f"{name}: native run disagrees (exit {rc}) on inputs {p['inputs']}: got {got} want {want}")
      if u.get('threads') and not new and paths:  # deterministic re-execution of recorded schedules with concrete inputs
        def val2(i_p):
          i, p = i_p; f = f'{work}/{name}.p{i}.in'; write_inputs(f, p['inputs'])
          rr, _ = run_engine(bcs, name, f'{work}/{name}.p{i}.jsonl', ['--concrete', f, '--jobs', '1', '--time', '60'] + u['_opts'], libs, 90)
          pp = [r for r in rr if r['type'] == 'path']; return bool(pp) and pp[0]['obs'] == p['obs'], p
        for ok, p in ex.map(val2, list(enumerate(paths[:6]))):
          if ok: nv += 1
          else: mismatched.append(f"{name}: schedule replay disagrees on inputs {p['inputs']}")
      validated += nv
      for p in paths[:3]: samples.append(dict(unit=name, inputs=p['inputs'], observations=p['obs']))
      ev_units.append(dict(unit=name, harness=b.cpp, bounds=u.get('bounds', ''), defines=list(b.defs), complete=bool(s['complete'] and not new), paths=s['paths'], pruned=s['pruned'], branches=s['branches'], forks=s['forks'], instructions=s['instructions'], assert_checks=s['assert_checks'], assert_queries=s['assert_queries'], z3_queries=s['z3_queries'], z3_seconds=s['z3_seconds'], z3_max_ms=s['z3_max_ms'], byte_domain_queries=s['domain_queries'], model_reuse=s['model_hits'], thread_switches=s['thread_switches'], reached=s['reached'], validated=nv, wall_s=s['wall_s']))
      print(f"  {name}: paths={s['paths']} branches={s['branches']} asserts={s['assert_checks']} z3={s['z3_queries']}/{s['z3_seconds']:.1f}s validated={nv} wall={s['wall_s']:.1f}s{' VIOLATED' if new else ''}", flush=True)
      if new: break
  finally:
    ex.shutdown(wait=True)
    if not keep: shutil.rmtree(work, ignore_errors=True)
  errors += [] if violations else mismatched
  ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level=P.get('level', 'model_checking'), wall_s=round(time.time() - t0, 2), violations=len(violations),
    assumptions=P.get('assumptions', []) + ['values outside the stated bounds are not covered', 'trusted: clang 18 -O1 IR lowering, the executor in /verif/engine, Z3 4.8.12, the models of libc/libstdc++ externals listed in DESIGN.md'],
    coverage=dict(states=max(tot['paths'], 0), transitions=tot['branches'], traces_validated_against_impl=validated, samples=samples or [dict(note='no completed path: a violation ended the run')], exhaustive=bool(ev_units) and all(u['complete'] for u in ev_units) and not errors,
      queries_discharged=tot['assert_queries'] + tot['branches'], solver=dict(z3_queries=tot['z3_queries'], z3_seconds=round(tot['z3_seconds'], 3), decided_by_byte_domains=tot['domain_queries'], decided_by_model_reuse=tot['model_hits']),
      assertion_checks=tot['assert_checks'], assertion_queries=tot['assert_queries'], instructions_executed=tot['instructions'], thread_switches=tot['thread_switches'], functions_encoded=sorted(functions), bounds=[f"{u['unit']}: {u['bounds']}" for u in ev_units], units=ev_units))
  json.dump(ev, open(f'{V}/evidence/{pid}.json', 'w'), indent=1)
  seen = set()
  for u, rx, d in known_hits:
    if d not in seen: seen.add(d); print(f'KNOWN-FINDING: property={pid} {d}')
  for v, rp, how, name in violations:
    print(f"violated by unit {name}: {v['kind']}: {v['msg']}\n  inputs: {v['inputs']}\n  at: " + '\n      '.join(v['stack'][:5]) + f'\n  confirmed: {how}')
    print(f'VIOLATION property={pid} replay={rp}')
  if violations: return 1
  if errors:
    for e in errors[:12]: print('CHECK-ERROR: ' + e)
    return 2
  print(f"{pid}: held ({tier}); {tot['paths']} paths, {tot['branches']} branch decisions, {tot['assert_checks']} assertions, {tot['z3_queries']} Z3 queries in {tot['z3_seconds']:.1f}s, {validated} traces validated natively, {time.time() - t0:.1f}s")
  return 0

def confirm(u, b, bcs, v, rp, name, work, asan, libs):
  if u.get('threads') or v['kind'] in ('deadlock', 'data race', 'mutex', 'thread') or u.get('model_env'):
    out = f'{work}/{name}.confirm.jsonl'; rr, _ = run_engine(bcs, name, out, ['--concrete', rp, '--jobs', '1', '--time', '100'] + u['_opts'], libs, 150)
    vv = [r for r in rr if r['type'] == 'violation']
    return (True, 're-executed with the concrete inputs and schedule: ' + vv[0]['kind'] + ': ' + vv[0]['msg']) if vv else (False, 'the concrete re-execution passes')
  try:
    if id(b) not in asan: asan[id(b)] = b.native('asan')
    tried = []
    base = 'detect_leaks=0:detect_stack_use_after_return=0:abort_on_error=0:allocator_may_return_null=1:'
    for env in ({'ASAN_OPTIONS': base}, {'ASAN_OPTIONS': base + 'max_malloc_fill_size=65536:malloc_fill_byte=0'}, {'ASAN_OPTIONS': base + 'max_malloc_fill_size=65536:malloc_fill_byte=255'}):
      rc, o = run_native(asan[id(b)], rp, name, 30, env, cwd=work); tried.append(rc)
      if rc == 'timeout': return True, 'the native run does not terminate (30 s)'
      if rc not in (0, 98, 99):
        m = re.search(r'(VP-ASSERT .*|ERROR: AddressSanitizer: [\w-]+.*|terminate called.*|what\(\):.*|.*Assertion.*)', o); return True, f'native run exits with {rc}: ' + (m.group(1)[:200] if m else o[-200:])
    for mode in ('zero', 'pattern', 'plain'):
      rc, o = run_native(b.native(mode), rp, name, 30, None, cwd=work); tried.append(rc)
      if rc == 'timeout': return True, 'the native run does not terminate (30 s)'
      if rc not in (0, 98, 99): return True, f'native run ({mode}) exits with {rc}: ' + o[-200:]
    return False, f'native runs exit with {tried}'
  except CheckError as e: return False, str(e)

if __name__ == '__main__':
  try: sys.exit(main())
  except CheckError as e: print('CHECK-ERROR: ' + str(e)); sys.exit(2)
