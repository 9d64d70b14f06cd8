#!/usr/bin/env python3
"""Decides one property: check.py PROPERTY [quick|thorough]

1. weave: the functions under contract are cut out of /repo's current source, desugared and annotated (tools/weave);
2. verify: Verus discharges every obligation of the woven crate(s);
3. harness: the same property is run concretely on the real crates (failing inputs, dependency contracts, stand-ins
   for functions outside the verifier's reach).
Exit 0: held. Exit 1 + "VIOLATION property=.. replay=..": broken. Other: no answer.
"""
import json, os, re, subprocess, sys, threading, time, shutil

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')          # development only; the registered commands use /repo
T = os.environ.get('VERIF_T') or os.path.join(V, 'target')    # VERIF_T: development only
XT = T + ('/expand' if REPO == '/repo' else '/expand-dev')   # cargo takes crates of equal relative path for the same
ENV = dict(os.environ, CARGO_NET_OFFLINE='true')

UNITS = {
    'mpc': dict(templates=['00_prelude.vrs', '10_digest.vrs', '20_id.vrs', '30_merkle.vrs', '40_atoms.vrs', '44_pos.vrs', '45_ghost.vrs', '46_full.vrs',
        '47_path.vrs', '50_block.vrs', '55_tree.vrs', '60_proof.vrs', '62_bind.vrs', '64_placed.vrs', '66_mkproof.vrs', '70_commit.vrs', '72_match.vrs', '74_union.vrs', '75_merge.vrs'], expand=True),
    'base': dict(templates=['00_prelude.vrs', '10_digest.vrs', '20_id.vrs', '30_merkle.vrs', '32_vesper.vrs', '76_fixture.vrs', '80_schemes.vrs', '82_embed.vrs', '83_convolve.vrs', '84_seals.vrs', '86_api.vrs', '88_reserved.vrs'], expand=True),
    'wire': dict(templates=['00_prelude.vrs', '90_wire.vrs'], expand=True),
}
PROPS = {p: ['mpc'] for p in ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C18', 'C19', 'C20', 'C21']}
PROPS.update({p: ['base'] for p in ['C11', 'C12', 'C13', 'C14', 'C15', 'C16', 'C22']})
PROPS['C17'] = ['wire', 'mpc']; PROPS['C20'] = ['mpc', 'base']

def sh(cmd, cwd=None, env=None, timeout=850):
    return subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True, errors='replace')

class NoAnswer(Exception): pass

def build_weaver():
    r = sh(['cargo', 'build', '--offline', '--release', '-q'], cwd=V + '/tools/weave', env=dict(ENV, CARGO_TARGET_DIR=T + '/weave'))
    if r.returncode: raise NoAnswer('weaver does not build: ' + r.stderr[-2000:])
    return T + '/weave/release/weave'

def dev_copy(name, to):
    """development: the same crate against another tree"""
    d = f'{to}/{name}'
    shutil.copytree(f'{V}/{name}', d, dirs_exist_ok=True)
    t = open(d + '/Cargo.toml').read(); open(d + '/Cargo.toml', 'w').write(t.replace('"/repo', '"' + REPO))
    return d

def expand(out):
    r = sh(['cargo', 'rustc', '--offline', '-q', '-p', 'commit_verify', '--lib', '--features', 'rand', '--', '-Zunpretty=expanded'],
           cwd=REPO, env=dict(ENV, CARGO_TARGET_DIR=XT, RUSTC_BOOTSTRAP='1'))
    if r.returncode: raise NoAnswer('/repo does not build: ' + r.stderr[-3000:])
    open(out, 'w').write(r.stdout)
    fx = V + '/fixture'
    if REPO != '/repo': fx = dev_copy('fixture', T + '/run/dev')
    r = sh(['cargo', 'rustc', '--offline', '-q', '--lib', '--', '-Zunpretty=expanded'], cwd=fx, env=dict(ENV, CARGO_TARGET_DIR=XT, RUSTC_BOOTSTRAP='1'))
    if r.returncode: raise NoAnswer('the derive fixture does not expand: ' + r.stderr[-3000:])
    open(out + '.fx', 'w').write(r.stdout)

# ------------------------------------------------------------------------------------------------ harness
class Harness(threading.Thread):
    def __init__(self, prop, tier, replay):
        super().__init__(daemon=True); self.a = (prop, tier, replay); self.res = None; self.err = None; self.secs = 0; self.build_secs = 0; self.deps = None; self.hang = False
    def run(self):
        try:
            t = time.time()
            hd, ht = V + '/harness', T + '/harness'
            if REPO != '/repo': hd, ht = dev_copy('harness', T + '/run/dev'), T + '/harness-dev'
            r = sh(['cargo', 'build', '--offline', '-q'], cwd=hd, env=dict(ENV, CARGO_TARGET_DIR=ht))
            self.build_secs = time.time() - t
            if r.returncode: self.err = 'harness does not build against /repo: ' + r.stderr[-3000:]; return
            t = time.time()
            prop, tier, replay = self.a
            try: r = sh([ht + '/debug/csv_harness', prop, tier, replay], timeout=600 if tier == 'quick' else 750)
            except subprocess.TimeoutExpired:
                # ten times and more of what it takes on the unchanged tree: the code under test does not terminate
                if tier == 'quick': self.hang = True; self.secs = time.time() - t; return
                raise
            self.secs = time.time() - t
            self.res = r
            d = sh([ht + '/debug/csv_harness', 'DEPS', tier], timeout=60)
            self.deps = dict(cases=int((re.search(r'^cases (\d+)', d.stdout, re.M) or [0, 0])[1]), held=d.returncode == 0)
            if d.returncode: self.deps['failed'] = (d.stdout + d.stderr)[-500:]
        except Exception as e: self.err = repr(e)

# ------------------------------------------------------------------------------------------------ verus
def verus(rs, cwd, extra=(), timeout=800):
    cmd = ['verus', rs, '--triggers-mode', 'silent', '--multiple-errors', '20', '--rlimit', '30', '--output-json', '--time-expanded', '--error-format=json'] + list(extra)
    t = time.time()
    r = sh(cmd, cwd=cwd, timeout=timeout)
    try: out = json.loads(r.stdout)
    except Exception: out = {}
    diags = []
    for l in r.stderr.splitlines():
        try: d = json.loads(l)
        except Exception: continue
        if d.get('level') == 'error' and not d['message'].startswith('aborting due to'): diags.append(d)
    return dict(cmd=' '.join(cmd), out=out, diags=diags, secs=time.time() - t, rc=r.returncode, stderr=r.stderr)

LABEL = re.compile(r'@((?:C\d\d,?)+)')
PROOF_ERRS = ('postcondition not satisfied', 'precondition not satisfied', 'assertion failed', 'invariant not satisfied', 'possible arithmetic', 'possible division',
              'decreases not satisfied', 'recommendation', 'unable to prove', 'requires not satisfied', 'possible bit shift', 'loop ensures not satisfied', 'possible')
UNDECIDED_ERRS = ('Resource limit', 'rlimit', 'timed out', 'while loop: Resource')

class Unit:
    def __init__(self, name, work):
        self.name, self.work, self.cfg = name, work, UNITS[name]
        self.stubs = {}          # fn label -> why
        self.fatal = None        # unit cannot be judged
    def weave(self, weaver, expanded, smoke=False):
        rs, mp = f'{self.work}/{self.name}.rs', f'{self.work}/{self.name}.map.json'
        cmd = [weaver, '--repo', REPO, '--out', rs, '--map', mp]
        if expanded: cmd += ['--expanded', expanded, '--fixture', expanded + '.fx']
        for k, v in self.stubs.items(): cmd += ['--stub', f'{k}={v[:200]}']
        cmd += [f'{V}/contracts/{t}' for t in self.cfg['templates'] + ['99_tail.vrs']]
        r = sh(cmd)
        if r.returncode: self.fatal = 'weaving failed: ' + (r.stderr or r.stdout)[-1500:]; return False
        self.map = json.load(open(mp)); self.rs = rs
        self.text = open(rs).read().split('\n')
        if self.map.get('fatal'): self.fatal = 'weaving failed: ' + '; '.join(self.map['fatal'])[:1500]; return False
        return True
    def fn_at(self, line):
        for f in self.map['fns']:
            if f['status'] != 'missing' and f['start'] <= line <= f['end']: return f
        return None
    def ghost_at(self, line):
        """template function enclosing a line: (name, first line, last line of its header)"""
        i = line - 1
        pat = re.compile(r'^\s*(?:pub(?:\([a-z]+\))?\s+)?(?:broadcast\s+)?(?:open\s+|closed\s+|uninterp\s+)?(?:axiom\s+|proof\s+|spec\s+|const\s+|exec\s+)*fn\s+(\w+)')
        while i >= 0:
            m = pat.match(self.text[i])
            if m:
                j = i
                while j < len(self.text) - 1 and '{' not in self.text[j].split('//')[0]: j += 1
                return m.group(1), i + 1, j + 1
            i -= 1
        return None
    def solve(self, weaver, expanded):
        for _ in range(12):
            if not self.weave(weaver, expanded): return
            self.v = verus(self.rs, self.work, extra=['--log-dir', f'{self.work}/{self.name}.log', '--log', 'air'])
            res = self.v['out'].get('verification-results', {})
            bad = [d for d in self.v['diags'] if not (d['message'].startswith(PROOF_ERRS) or any(u in d['message'] for u in UNDECIDED_ERRS)) or d.get('code')]
            if not bad:
                if 'verified' not in res: self.fatal = 'verifier gave no result: ' + self.v['stderr'][-1500:]
                return
            new = {}
            for d in bad:
                hit = None
                for s in sorted(d['spans'], key=lambda s: not s['is_primary']):
                    f = self.fn_at(s['line_start'])
                    if f and f['status'] == 'woven': hit = f; break
                if hit: new[hit['name']] = 'not accepted by the verifier front end: ' + d['message']
            new = {k: v for k, v in new.items() if k not in self.stubs}
            if not new:
                d = bad[0]
                self.fatal = 'verifier front end: ' + d['message'] + ' at ' + ','.join(str(s['line_start']) for s in d['spans'])
                return
            self.stubs.update(new)
        self.fatal = 'too many functions outside the verifier front end'
    # -------------------------------------------------------------------------------- results
    def label(self, line):
        m = LABEL.search(self.text[line - 1]) if 0 < line <= len(self.text) else None
        return [p for p in m.group(1).split(',') if p] if m else None
    def failures(self):
        """[(props, name, kind, message, rendered)]"""
        out = []
        for d in self.v['diags']:
            undec = any(u in d['message'] for u in UNDECIDED_ERRS)
            props, name = None, None
            spans = sorted(d['spans'], key=lambda s: not s['is_primary'])
            for s in spans:
                l = self.label(s['line_start'])
                if l: props = l; break
            for s in spans:
                f = self.fn_at(s['line_start'])
                if f:
                    # a call-site failure belongs to the caller: prefer the span inside a body over a callee's contract line
                    name = name or f['name']
                    if props is None and f['props']: props = f['props']
            if props is None or name is None:
                for s in spans:
                    g = self.ghost_at(s['line_start'])
                    if g and name is None: name = g[0]
                    if g and props is None:
                        ls = [p for k in range(g[1], g[2] + 1) for p in (self.label(k) or [])]
                        if ls: props = sorted(set(ls))
            out.append((props, name or '?', 'undecided' if undec else 'failed', d['message'], d.get('rendered') or d['message']))
        return out
    def obligations(self):
        """labelled assertions per source line of the function they belong to"""
        per = {}
        logd = f'{self.work}/{self.name}.log'
        for fn in (os.listdir(logd) if os.path.isdir(logd) else []):
            if not fn.endswith('.air'): continue
            cur = None
            lines = open(os.path.join(logd, fn), errors='replace').read().split('\n')
            for i, l in enumerate(lines):
                if l.startswith(';; Function-Def') or l.startswith(';; Function-') and 'Def' in l:
                    m = re.search(r'\.rs:(\d+):', lines[i + 1] if i + 1 < len(lines) else '')
                    cur = int(m.group(1)) if m else None
                elif l.startswith(';; ') and 'Function-' in l: cur = None
                elif cur and l.strip() == '(assert' and lines[i + 1].strip().startswith('('): per[cur] = per.get(cur, 0) + 1
        return per
    def props_of_line(self, line):
        f = self.fn_at(line)
        if f:
            ps = set(f['props'])
            for k in range(f['start'], f['end'] + 1): ps |= set(self.label(k) or [])
            return ps, f['name'], 'ghost' if f['status'] == 'lemma' else 'woven'
        g = self.ghost_at(line)
        if not g: return set(), '?', 'ghost'
        ps = set()
        for k in range(g[1], g[2] + 1): ps |= set(self.label(k) or [])
        return ps, g[0], 'ghost'
    def trusted(self):
        """every contract or fact the verifier takes without proof, by name"""
        out, owner = [], ''
        for i, l in enumerate(self.text):
            m = re.match(r'(?:unsafe )?impl(?:<.*?>)?\s+(.*?)\s*(?:where.*)?\{', l) or re.match(r'(?:pub )?trait (\w+)', l)
            if m: owner = m.group(1)
            elif re.match(r'(?:pub )?(?:open |proof |struct|enum|const|fn|axiom|uninterp)', l): owner = ''
            q = lambda n: f'<{owner}>::{n}' if owner and (l.startswith(' ') or l.startswith('impl')) else n
            if 'external_body' in l or 'external_fn_specification' in l or 'assume_specification' in l or 'external_type_specification' in l:
                if self.fn_at(i + 1): continue
                k = i
                while k < len(self.text) - 1 and not re.search(r'\b(fn|struct|enum)\s+\w+|assume_specification', self.text[k]): k += 1
                m = re.search(r'assume_specification[^\[]*\[\s*(.*?)\s*\]\s*\(', self.text[k])
                if m: out.append('assumed contract of ' + m.group(1)); continue
                for m in re.finditer(r'external_body\][^{]*?\b(?:fn|struct|enum)\s+(\w+)', ' '.join(self.text[i:k+1])): out.append('assumed contract of ' + q(m.group(1)))
            m = re.search(r'\baxiom\s+fn\s+(\w+)', l)
            if m: out.append('axiom ' + q(m.group(1)))
            m = re.search(r'\buninterp\s+spec\s+fn\s+(\w+)', l)
            if m: out.append('uninterpreted ' + q(m.group(1)))
            if re.search(r'\b(assume|admit)\s*\(', l.split('//')[0]):
                g = self.ghost_at(i + 1)
                out.append('assume inside ' + (g[0] if g else '?'))
        return list(dict.fromkeys(out))

def smoke(unit, weaver, expanded):
    """non-vacuity: `assert(false)` at the start of every woven body must fail (its preconditions are satisfiable for the solver)"""
    text = list(unit.text); want = []
    for f in sorted((f for f in unit.map['fns'] if f['status'] == 'woven' and f.get('body')), key=lambda f: -f['body']):
        k = f['body'] - 1
        if '{' not in text[k]: continue
        c = text[k].index('{') + 1
        text[k] = text[k][:c] + ' assert(false); ' + text[k][c:]
        want.append((f['body'], f['name']))
    p = f'{unit.work}/{unit.name}_smoke.rs'
    open(p, 'w').write('\n'.join(text))
    v = verus(p, unit.work)
    hit = {s['line_start'] for d in v['diags'] if d['message'].startswith('assertion failed') for s in d['spans']}
    return [n for (l, n) in want if l not in hit], len(want)

def known_findings(prop):
    out = {}
    p = V + '/known_findings.txt'
    for l in open(p).read().splitlines() if os.path.exists(p) else []:
        m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l)
        if m and m.group(1) == prop: out[m.group(2)] = m.group(3)
    return out

def main():
    t0 = time.time()
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    work = f'{T}/run/{prop}-{os.getpid()}'
    os.makedirs(work, exist_ok=True); os.makedirs(T + '/replay', exist_ok=True); os.makedirs(V + '/evidence', exist_ok=True)
    replay = f'{T}/replay/{prop}.txt'
    if os.path.exists(replay): os.remove(replay)
    h = Harness(prop, tier, replay); h.start()
    expanded, weaver, fatal = None, None, None
    units = [Unit(n, work) for n in PROPS[prop]]
    try:
        weaver = build_weaver()
        if any(u.cfg.get('expand') for u in units):
            expanded = work + '/expanded.rs'; expand(expanded)
        for u in units: u.solve(weaver, expanded)
    except NoAnswer as e: fatal = str(e)
    except subprocess.TimeoutExpired as e: fatal = 'timeout: ' + str(e)[:200]
    h.join()
    if fatal and (h.err or '/repo does not build' in fatal):
        print('NO ANSWER:', fatal); print(h.err or ''); return 2

    lines, viol, undecided = [], [], []
    fails = []
    ob_tot = ob_ok = 0; fns, lemmas, solver_ms = [], 0, 0; trusted, rules, stubs = [], {}, []
    for u in units:
        if u.fatal or fatal: undecided.append(f'unit {u.name}: {u.fatal or fatal}'); continue
        fl = u.failures()
        failing_lines = set()
        mine = [f for f in fl if f[0] and prop in f[0]]
        for f in fl:
            if f[0] is None: undecided.append(f'unit {u.name}: unattributed obligation in {f[1]}: {f[3]}')
        for f in mine: (fails if f[2] == 'failed' else undecided).append(f if f[2] == 'failed' else f'{f[1]}: {f[3]}')
        for d in u.v['diags']:
            for s in d['spans']: failing_lines.add(s['line_start'])
        for line, n in sorted(u.obligations().items()):
            ps, name, kind = u.props_of_line(line)
            if prop not in ps: continue
            ob_tot += n
            bad = sum(1 for f in fl if f[1] == name)
            ob_ok += max(0, n - bad)
            if kind == 'ghost': lemmas += 1
        for f in u.map['fns']:
            ps = set(f['props'])
            if f['status'] == 'woven':
                for k in range(f['start'], f['end'] + 1): ps |= set(u.label(k) or [])
            if prop not in ps: continue
            if f['status'] == 'woven':
                fns.append(f"{f['file']}: {f['name']}")
                for r_ in f.get('rules', []): rules[r_] = rules.get(r_, 0) + 1
            elif f['status'] != 'lemma':
                stubs.append(f"{f['name']}: {f['reason']}")
        smt = u.v['out'].get('times-ms', {}).get('smt', {})
        solver_ms += smt.get('smt-run', 0)
        trusted += u.trusted()
    for s in stubs: undecided.append('not under contract on this tree (contract assumed, decided by the harness only): ' + s)

    vac = None
    if tier == 'thorough' and not undecided and not fails:
        vac = {}
        for u in units:
            v_, n_ = smoke(u, weaver, expanded)
            vac[u.name] = {'bodies': n_, 'vacuous': v_}
            # diverging or never-called-with-success bodies may legitimately be vacuous: reported, not judged

    # ---------------------------------------------------------------- verdict
    known = known_findings(prop)
    out = (h.res.stdout if h.res else '')
    cases = int((re.search(r'^cases (\d+)', out, re.M) or [0, 0])[1])
    rc = 0
    for m in re.finditer(r'^FINDING (\S+)', out, re.M):
        if m.group(1) in known: lines.append(f'KNOWN-FINDING: property={prop} {known[m.group(1)]}')
        else: viol.append(f'VIOLATION property={prop} replay={replay}'); open(replay, 'w').write(out)
    if h.res is not None and h.res.returncode == 1 and 'FAIL property' in out:
        if fails:
            with open(replay, 'a') as f:
                f.write('\nverifier output:\n' + '\n'.join(f'[{x[1]}] {x[4]}' for x in fails)[:20000])
        viol.append(f'VIOLATION property={prop} replay={replay}')
    elif h.hang:
        viol.append(f'VIOLATION property={prop} replay={replay}')
        open(replay, 'w').write(f'property {prop}\nwhat: the code under test did not finish in {h.secs:.0f} s\nreplay: VERIF_SEED={seed} csv_harness {prop} {tier}\n'
            + ''.join(f'\nobligation in {x[1]}: {x[3]}\n{x[4]}\n' for x in fails))
    elif h.res is not None and h.res.returncode not in (0, 1):
        viol.append(f'VIOLATION property={prop} replay={replay}')
        open(replay, 'w').write(f'the harness process died with {h.res.returncode} (abort or stack overflow in the code under test)\nreplay: VERIF_SEED={seed} csv_harness {prop} {tier}\n' + out + h.res.stderr[-4000:])
    elif fails:
        with open(replay, 'w') as f:
            f.write(f'property {prop}: obligations which the verifier rejects on the current source (no failing input found in {cases} concrete cases)\n')
            for x in fails: f.write(f'\nobligation in {x[1]}: {x[3]}\n{x[4]}\n')
        viol.append(f'VIOLATION property={prop} replay={replay} no-failing-input-found')
    if h.err:
        if viol: pass
        elif undecided: print('NO ANSWER:', h.err); rc = 2
        else: undecided.append(h.err)
    if h.deps and not h.deps['held']: undecided.append('an assumed contract of a dependency does not hold: ' + h.deps['failed'])
    for x in undecided: lines.append('UNDECIDED ' + x[:400])
    lines += viol[:1]
    if viol: rc = 1

    ev = dict(property=prop, tier=tier, seed=seed, level='proof', wall_s=round(time.time() - t0, 1), violations=len(viol), coverage=dict(
        obligations=ob_tot, discharged=ob_ok,
        checker_cmd=(units[0].v['cmd'].replace(work, '<work>') if not fatal and not units[0].fatal else 'weaving or verification did not complete'),
        trusted_base=['verus 0.2026.09.13 with z3 (SMT back end for every obligation)', 'tools/weave: extraction and desugaring rules', 'rustc macro expansion for derived impls'] + sorted(set(trusted)),
        functions_under_contract=fns, lemmas_for_this_property=lemmas, solver_ms=solver_ms, desugaring_rules_applied=rules,
        verified_functions_total={u.name: u.v['out'].get('verification-results', {}).get('verified') for u in units if not fatal and not u.fatal},
        failed_obligations=[f'{x[1]}: {x[3]}' for x in fails], undecided=undecided, non_vacuity=vac,
        bounded_stand_in=dict(what='concrete run of the property against the real crates and an independent reference (never counted as proved)', cases=cases, seconds=round(h.secs, 1)),
        assumed_dependency_contracts_tested=h.deps,
        known_findings_seen=[l for l in lines if l.startswith('KNOWN')]),
        assumptions=ASSUMPTIONS)
    json.dump(ev, open(f'{V}/evidence/{prop}.json', 'w'), indent=1)
    for l in lines: print(l)
    print(f'{prop} {tier}: {ob_ok}/{ob_tot} obligations in {len(fns)} functions and {lemmas} lemmas, {cases} concrete cases, {time.time()-t0:.0f} s')
    if rc == 0: shutil.rmtree(work, ignore_errors=True)
    return rc

LEVEL_NOTE_DEFAULT = ('Every obligation of the functions and lemmas named in the evidence file is discharged by Verus/Z3 for all inputs; the verified text is cut from /repo on every run. '
    'Trusted: contracts of dependencies and std in contracts/*.vrs, the extraction rules of tools/weave, strict-encoding byte layout, hash functions as uninterpreted functions.')
LEVEL_NOTE = {}
ASSUMPTIONS = [
    'contracts of dependencies (amplify, sha2, ripemd, strict_encoding, std collections) in contracts/00_prelude.vrs are assumed; the harness runs them against the real crates (assumed_dependency_contracts_tested)',
    'serialization by derived StrictEncode code (dependency macro) is assumed to have the layout built from the type declaration; the harness compares it byte by byte',
    'SHA-256 and RIPEMD-160 are uninterpreted functions; "short of a collision" is the explicit hypothesis no_collisions() of the lemmas which need it',
    'release and debug builds agree: overflow, debug assertions and panics are proved absent under the stated preconditions',
]
if __name__ == '__main__': sys.exit(main())
