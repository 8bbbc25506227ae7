#!/usr/bin/env python3
"""check driver:  run.py PROPERTY [--tier quick|thorough]   |  run.py --unit UNIT[:ENTRY] (development)"""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import cinject
from units import Unit

REPO = os.environ.get('VP_REPO', '/repo')
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
T0 = time.time()
BUDGET = 840.0


def left():
    return BUDGET - (time.time() - T0)


def sh(cmd, timeout, cwd=None):
    """returns (rc, output); rc None on timeout"""
    t = time.time()
    p = subprocess.Popen(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                         start_new_session=True)
    try:
        out, _ = p.communicate(timeout=max(1, timeout))
        return p.returncode, out.decode('utf-8', 'replace'), time.time() - t
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        out, _ = p.communicate()
        return None, out.decode('utf-8', 'replace'), time.time() - t


CHECKS = ['--bounds-check', '--pointer-check', '--div-by-zero-check', '--signed-overflow-check', '--undefined-shift-check']


LIBLOCK = threading.Lock()
NATIVE_CC = ['gcc', '-g', '-O1', '-w', '-fsanitize=address,undefined', '-fno-sanitize=shift,float-cast-overflow,alignment,pointer-overflow,float-divide-by-zero',
             '-fno-sanitize-recover=all', '-DPLATFORM_POSIX']


def vmlib(work, kind):
    """the whole interpreter of the current tree as a sanitized archive, built once per run"""
    with LIBLOCK:
        d = os.path.join(work, 'vmlib-' + kind)
        lib = os.path.join(d, 'libvm.a')
        if os.path.isdir(d):
            return lib if os.path.exists(lib) else None
        os.makedirs(d)
        S = os.path.join(REPO, 'src')
        files = []
        for sub in ('vm', 'optionals'):
            for r, _, fs in os.walk(os.path.join(S, sub)):
                for f in sorted(fs):
                    # bindings to operating system services and external libraries are left out
                    if f.endswith('.c') and f not in ('http.c', 'uuid.c', 'sqlite3.c', 'sqlite.c', 'process.c', 'socket.c', 'ffi.c'):
                        files.append(os.path.join(r, f))
        ok = []

        def one(f):
            o = os.path.join(d, os.path.relpath(f, S).replace('/', '_') + '.o')
            rc, out, _ = sh(NATIVE_CC + ['-DDISABLE_HTTP', '-DDISABLE_UUID', '-DDEBUG_FINAL_MEM'] + (['-DDEBUG_STRESS_GC'] if kind == 'stress' else []) + ['-I' + S, '-I' + S + '/vm', '-I' + S + '/include', '-c', f, '-o', o], 120)
            ok.append(rc == 0)
            return o
        with cf.ThreadPoolExecutor(max_workers=8) as ex:
            objs = list(ex.map(one, files))
        if not all(ok) or sh(['ar', 'rcs', lib] + objs, 60)[0] != 0:
            return None
        return lib


class Entry:
    """one contract-enforcement run: unit + entry"""

    def __init__(self, unit, name, work, tier):
        self.u = unit
        self.name = name
        self.o = dict(unit.entries[name])
        self.work = os.path.join(work, unit.name + '.' + name)
        os.makedirs(self.work, exist_ok=True)
        self.tier = tier
        self.id = '%s:%s' % (unit.name, name)
        self.mode = self.o.get('mode', 'proof')
        self.status = None
        self.total = self.ok = 0
        self.failed = []
        self.reach = [0, 0]
        self.solver_s = 0.0
        self.note = ''
        self.nobody = []
        self.out = ''
        self.concrete = None
        self.native_note = ''

    # ---------- build
    def defs(self, extra=()):
        d = ['-DVP_ENTRY=' + self.name] + list(extra)
        for k in self.o.get('def', '').split():
            d.append('-D' + k)
        return d

    def srctree(self, injected):
        if not injected:
            return os.path.join(REPO, 'src')
        dst = os.path.join(self.work, 'src')
        if not os.path.isdir(dst):
            shutil.copytree(os.path.join(REPO, 'src'), dst, ignore=shutil.ignore_patterns('*.du'))
            by = {}
            only = self.o.get('loopfuncs')
            only = only.replace(',', ' ').split() if only is not None else None
            for f, func, idx, count, text, ghost in self.u.loops:
                if only is None or func in only:
                    by.setdefault(f, []).append((func, idx, count, text, ghost))
            for f, specs in by.items():
                p = os.path.join(dst, f)
                s = open(p).read()
                s = cinject.inject(s, specs, f + ': ')
                open(p, 'w').write(s)
            for r in self.o.get('rec', '').split():
                f, func, con = r.split(':')
                p = os.path.join(dst, f)
                s = open(p).read()
                open(p, 'w').write(cinject.retarget(s, func, con))
        return dst

    def goto(self, bmc):
        loops = self.o.get('loops', 'on') == 'on' and bool(self.u.loops) and not bmc and self.mode == 'proof'
        S = self.srctree(loops)
        tag = 'bmc' if bmc else 'pr'
        a = os.path.join(self.work, tag + '.gb')
        ex = ['-DVP_CBMC']
        if bmc or self.mode == 'bounded':
            ex += ['-DVP_BMC', '-DVP_BOUND=' + self.bound(bmc)]
        elif 'max' in self.o:
            ex += ['-DVP_MAX=' + self.o['max']]
        cmd = ['goto-cc', '-DPLATFORM_POSIX', '-I' + S, '-I' + S + '/vm', '-I' + S + '/include', '-I' + HERE, '-include', HERE + '/vp.h', '-include', HERE + '/dictu_pre.h'] \
            + self.defs(ex) + self.u.cflags + ['--function', self.name, self.u.path] + [os.path.join(S, x) for x in self.u.src] + ['-o', a]
        rc, out, _ = sh(cmd, 120)
        if rc != 0:
            return None, 'goto-cc: ' + out[-1500:]
        rep = self.o.get('bmc_replace' if bmc else 'replace', '')
        if rep:
            # a callee that no longer exists is simply not called: drop its replacement
            syms = sh(['goto-instrument', '--list-symbols', a], 120)[1]
            names = set(x.split()[0] for x in syms.splitlines() if x.strip())
            cmd = ['goto-instrument']
            for r in rep.replace(',', ' ').split():
                if r.split(':')[0] in names:
                    cmd += ['--replace-calls', r]
                else:
                    return None, 'callee %s under contract not found' % r.split(':')[0]
            b = a + '2'
            rc, out, _ = sh(cmd + [a, b], 120)
            if rc != 0:
                return None, 'goto-instrument: ' + out[-1500:]
            a = b
        rem = self.o.get('havoc', '')
        if rem and not bmc:
            b = a + '3'
            cmd = ['goto-instrument']
            for r in rem.split():
                cmd += ['--remove-function-body', r]
            rc, out, _ = sh(cmd + [a, b], 120)
            if rc != 0:
                return None, 'goto-instrument: ' + out[-1500:]
            a = b
        b = a + '5'
        if sh(['goto-instrument', '--drop-unused-functions', a, b], 120)[0] == 0:
            a = b
        if loops:
            b = a + '4'
            rc, out, _ = sh(['goto-instrument', '--apply-loop-contracts'] + self.o.get('lcflags', '').split() + [a, b], 300)
            if rc != 0:
                return None, 'loop contracts: ' + out[-1500:]
            a = b
        return a, ''

    def bound(self, bmc):
        return self.o.get('thorough_bound' if self.tier == 'thorough' and 'thorough_bound' in self.o else 'bound', '4')

    def flags(self, bmc):
        f = ['--object-bits', self.o.get('object_bits', '10'), '--no-malloc-may-fail', '--no-standard-checks', '--slice-formula', '--drop-unused-functions']
        chk = self.o.get('checks')
        f += CHECKS if chk is None else ['--' + c for c in chk.split()]
        uw = self.o.get('bmc_unwind' if (bmc and 'bmc_unwind' in self.o) else 'unwind')
        if self.tier == 'thorough' and 'thorough_unwind' in self.o and (bmc or self.mode == 'bounded'):
            uw = self.o['thorough_unwind']
        if uw:
            f += ['--unwind', uw, '--unwinding-assertions']
        us = self.o.get('bmc_unwindset' if bmc else 'unwindset')
        if us:
            f += ['--unwindset', us]
        s = self.o.get('solver')
        if s and not bmc:
            f += s.split()
        return f

    RES = re.compile(r'^\[(\S+)\] (?:file \S+ )?(?:line \d+ )?(.*): (SUCCESS|FAILURE|UNKNOWN|ERROR)$')

    def verify(self, bmc=False, timeout=None):
        """run the verifier; fills status in proved / failed / undecided"""
        tmo = timeout or float(self.o.get('timeout', '300'))
        tmo = min(tmo, left() - 60)
        try:
            gb, err = self.goto(bmc)
        except (cinject.InjectError, OSError, ValueError) as e:
            gb, err = None, 'extraction: %s' % e
        r = {'total': 0, 'ok': 0, 'failed': [], 'reach': [0, 0], 'unwind_failed': [], 'note': '', 'out': ''}
        if gb is None:
            r['status'] = 'undecided'
            r['note'] = err
            return r
        cmd = ['cbmc', gb] + self.flags(bmc)
        rc, out, secs = sh(cmd, tmo)
        r['cmd'] = ' '.join(cmd)
        r['secs'] = secs
        r['out'] = out
        for ln in out.splitlines():
            m = self.RES.match(ln)
            if not m:
                w = re.search(r'no body for (?:function|callee) (\S+)', ln)
                if w and not w.group(1).startswith('nondet'):
                    self.nobody.append(w.group(1))
                continue
            pid, desc, st = m.groups()
            if 'VPREACH:' in desc:
                r['reach'][1] += 1
                if st == 'FAILURE':
                    r['reach'][0] += 1
                continue
            r['total'] += 1
            if st == 'SUCCESS':
                r['ok'] += 1
            elif '.unwind.' in pid or '.recursion' in pid or 'unwinding assertion' in desc:
                r['unwind_failed'].append('%s %s' % (pid, desc))
            else:
                r['failed'].append('%s %s' % (pid, desc))
        if rc is None:
            r['status'] = 'undecided'
            r['note'] = 'verifier time limit (%ds)' % tmo
        elif rc not in (0, 10) or r['total'] == 0:
            r['status'] = 'undecided'
            r['note'] = 'verifier: ' + out[-800:]
        elif r['failed']:
            r['status'] = 'failed'
        elif r['unwind_failed']:
            r['status'] = 'undecided'
            r['note'] = 'loop without a contract exceeds the unwinding: ' + r['unwind_failed'][0]
        elif r['reach'][0] != r['reach'][1] or r['reach'][1] == 0:
            r['status'] = 'failed'
            r['failed'].append('vacuity guard: the end of the contract harness is unreachable')
        else:
            r['status'] = 'proved'
        return r

    def main(self):
        r = self.verify()
        self.r = r
        self.status, self.total, self.ok, self.failed, self.reach = r['status'], r['total'], r['ok'], r['failed'], r['reach']
        self.note, self.out = r['note'], r['out']
        self.solver_s = r.get('secs', 0.0)
        return self

    # ---------- refutation
    def native_build(self):
        if self.o.get('native', 'yes') != 'yes':
            return None
        exe = os.path.join(self.work, 'native')
        if os.path.exists(exe):
            return exe
        S = os.path.join(REPO, 'src')
        src = self.u.native_src if self.u.native_src is not None else self.u.src
        cmd = NATIVE_CC + ['-DVP_BOUND=' + self.o.get('native_bound', self.o.get('bound', '4')), '-I' + S, '-I' + S + '/vm', '-I' + S + '/include', '-I' + HERE,
               '-include', HERE + '/vp.h', '-include', HERE + '/dictu_pre.h'] + self.defs() + self.u.cflags + \
              [self.u.path, HERE + '/native.c'] + [os.path.join(S, x) for x in src] + ['-o', exe, '-lm', '-Wl,--unresolved-symbols=ignore-all', '-no-pie']
        if self.o.get('vmlib'):
            lib = vmlib(os.path.dirname(self.work), self.o['vmlib'])
            if lib is None:
                self.native_note = 'interpreter library does not build'
                return None
            i = cmd.index('-o')
            cmd = cmd[:i] + [lib] + cmd[i:]
        rc, out, _ = sh(cmd, 180)
        if rc != 0:
            self.native_note = 'native build: ' + out[-1500:]
            return None
        return exe

    def env(self):
        return 'ASAN_OPTIONS=detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1'

    def native(self, *args, timeout=60):
        exe = self.native_build()
        if exe is None:
            return None, self.native_note or 'no native build for this entry'
        rc, out, _ = sh(['env', self.env(), exe] + list(args), timeout)
        return rc, out

    def trace_inputs(self, gb_out):
        vals = []
        for m in re.finditer(r'^\s*vp_log_in=(\d+)', gb_out, re.M):
            vals.append(int(m.group(1)))
        return vals

    def refute(self, want_bounded):
        """bounded run of the same harness without loop contracts, counterexample replayed natively; then native search.
        returns (kind, text, inputs) kind in 'concrete','bounded-fail','clean'"""
        text = ''
        bounded_fail = None
        k, t, v = self.search()
        text += t
        if k == 'concrete':
            return k, text, v
        if self.o.get('bmc', 'yes') == 'yes':
            gb, err = (None, '')
            try:
                gb, err = self.goto(True)
            except Exception as e:  # extraction
                err = str(e)
            if gb:
                tmo = min(float(self.o.get('bmc_timeout', '100')), left() - 90)
                cmd = ['cbmc', gb] + [f for f in self.flags(True) if f != '--unwinding-assertions' and f != '--slice-formula'] + ['--no-unwinding-assertions', '--trace', '--stop-on-fail']
                # reachability markers would stop the run: compile them away
                rc, out, secs = sh([c for c in cmd], tmo) if False else self.bmc_run(gb, tmo)
                self.solver_s += secs
                if rc == 10:
                    vals = self.trace_inputs(out)
                    viol = re.findall(r'Violated property:\n(?:.*\n){1,3}?\s*(.*)\n', out)
                    mv = re.search(r'Violated property:\n((?:.*\n){1,4})', out)
                    bounded_fail = (mv.group(1).strip() if mv else 'violated')
                    text += 'bounded refutation: counterexample\n%s\ninputs: %s\n' % (bounded_fail, vals)
                    f = os.path.join(self.work, 'cex.txt')
                    open(f, 'w').write('\n'.join(map(str, vals)) + '\n')
                    rcn, outn = self.native('replay', f, timeout=60)
                    text += 'native replay of the counterexample: %s\n' % outn[-3000:]
                    if rcn == 1:
                        return 'concrete', text, vals
                elif rc == 0:
                    text += 'bounded refutation (bound %s): no counterexample within the bound\n' % self.bound(True)
                else:
                    text += 'bounded refutation: no answer (%s)\n' % ('time limit' if rc is None else 'rc %s %s' % (rc, out[-300:]))
            else:
                text += 'bounded refutation not built: %s\n' % err[-500:]
        if bounded_fail:
            return 'bounded-fail', text, None
        return 'clean', text, None

    def search(self, secs=None):
        text = ''
        f = os.path.join(self.work, 'found.txt')
        secs = secs or min(25.0, max(3.0, left() / 10))
        rcn, outn = self.native('search', str(SEED), '%.1f' % secs, f, timeout=secs + 40)
        text += 'native search: %s\n' % outn[-3000:]
        if rcn == 1:
            vals = []
            if os.path.exists(f):
                vals = [int(x) for x in open(f).read().split('\n') if x and not x.startswith('#')]
            return 'concrete', text, vals
        return 'clean', text, None

    def bmc_run(self, gb, tmo):
        b = gb + 'r'
        fl = [f for f in self.flags(True) if f not in ('--unwinding-assertions', '--slice-formula')]
        # select every property but the reachability markers
        rc, out, _ = sh(['cbmc', gb, '--show-properties', '--json-ui'] + fl, 120)
        props = []
        try:
            for o in json.loads(out):
                for p in o.get('properties', []) if isinstance(o, dict) else []:
                    if 'VPREACH:' not in p.get('description', ''):
                        props.append(p['name'])
        except Exception:
            return 1, 'cannot list properties', 0.0
        cmd = ['cbmc', gb] + fl + ['--no-unwinding-assertions', '--trace', '--stop-on-fail']
        for p in props:
            cmd += ['--property', p]
        return sh(cmd, tmo)


def load_known():
    p = os.path.join(VERIF, 'known_findings.txt')
    res = []
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r'known: property=(\S+) entry=(\S+) (.*)$', ln.strip())
            if m:
                res.append(m.groups())
    return res


def run_property(pid, tier):
    from registry import PROPS
    P = PROPS[pid]
    work = tempfile.mkdtemp(prefix='vp-%s-' % pid)
    repdir = os.path.join(VERIF, 'replays', pid)
    shutil.rmtree(repdir, ignore_errors=True)
    violations = []
    try:
        entries = []
        oracles = []
        for spec in P['units']:
            un, _, en = spec.partition(':')
            u = Unit(un)
            for e in ([en] if en else list(u.entries)):
                if u.entries[e].get('tier') == 'thorough' and tier != 'thorough':
                    continue
                E = Entry(u, e, work, tier)
                (oracles if E.mode == 'oracle' else entries).append(E)
        # longest first
        entries.sort(key=lambda e: -float(e.o.get('cost', '5')))
        with cf.ThreadPoolExecutor(max_workers=int(os.environ.get('VP_JOBS', '8'))) as ex:
            list(ex.map(lambda e: e.main(), entries))
        # the same contracts executed on the real code (ASan/UBSan), labelled bounded, never counted as proved: covers what
        # callee contracts abstract from (storage moved by a callee, real allocation, real string contents)
        native_runs = []

        def smoke(e):
            if e.o.get('native', 'yes') != 'yes' or (e.mode != 'oracle' and e.status != 'proved') or left() < 120:
                return
            k, t, v = e.search(float(e.o.get('smoke', '4' if e.mode == 'oracle' else '1.5')) * (4 if tier == 'thorough' else 1))
            native_runs.append((e.id, t.strip()[-300:]))
            if k == 'concrete':
                e.status, e.kind, e.text, e.inputs, e.failed = 'failed', k, t, v, ['contract executed on the real code: ' + t.strip()[-400:]]
                if e.mode == 'oracle':
                    e.out, e.r = '', {}
                    entries.append(e)
        with cf.ThreadPoolExecutor(max_workers=8) as ex:
            list(ex.map(smoke, list(entries) + oracles))
        bad = [e for e in entries if e.status != 'proved']
        for e in bad:
            print('[%s] %s %s %s' % (pid, e.id, e.status, (e.failed[:6] or e.note[-400:])))

        def deal(e):
            if getattr(e, 'kind', None) == 'concrete':
                return e
            e.kind, e.text, e.inputs = e.refute(e.status == 'undecided')
            return e
        with cf.ThreadPoolExecutor(max_workers=4) as ex:
            list(ex.map(deal, bad))
        concrete = [e for e in bad if e.kind == 'concrete']
        if bad and not concrete:
            # whole-property refutation harnesses on the real code, run only after a failed or undecided obligation
            def orc(o):
                o.status, o.failed, o.out, o.r = 'failed', ['(refutation of: %s)' % '; '.join(x for e in bad for x in (e.failed or [e.id + ': ' + e.note[:200]]))[:3000]], '', {}
                o.kind, o.text, o.inputs = o.search()
                return o
            with cf.ThreadPoolExecutor(max_workers=4) as ex:
                found = [o for o in ex.map(orc, oracles) if o.kind == 'concrete']
            concrete += found
            for e in bad:
                e.text += ''.join(o.id + ' ' + o.text for o in oracles)
        if concrete:
            bad = concrete + [e for e in bad if e.kind != 'concrete' and e.kind != 'clean']
        for e in bad:
            if e.status == 'undecided' and e.kind == 'clean':
                e.note += ' | fell back to a bounded stand-in, no violation found'
                print('[%s] %s undecided (%s); bounded stand-in clean' % (pid, e.id, e.note[:200].replace('\n', ' ')))
                continue
            os.makedirs(repdir, exist_ok=True)
            rp = os.path.join(repdir, '%s.%s.txt' % (e.u.name, e.name))
            with open(rp, 'w') as f:
                f.write('property %s, obligation unit %s\nstatus: %s %s\n' % (pid, e.id, e.status, e.note))
                f.write('failed obligations:\n  ' + '\n  '.join(e.failed) + '\n')
                f.write('verifier command: %s\n' % e.r.get('cmd', ''))
                f.write(e.text + '\n')
                if e.inputs is not None:
                    f.write('# failing inputs (in the order the harness draws them); replay: python3 %s/run.py --replay %s %s\n' % (HERE, e.id, rp))
                    f.write('INPUTS\n' + '\n'.join(map(str, e.inputs)) + '\nEND\n')
                f.write('\nverifier output (failures):\n')
                f.write('\n'.join(l for l in e.out.splitlines() if not l.endswith(': SUCCESS'))[-8000:])
            violations.append((e, rp))
    finally:
        if not os.environ.get('VP_KEEP'):
            shutil.rmtree(work, ignore_errors=True)
        else:
            print('work dir', work)
    trusted = ['CBMC 6.11.0 (C semantics, memory model, MiniSat)', 'goto-cc preprocessor with the system headers',
               'value.h pointer<->Value codec replaced by an equivalent 64-bit codec in verifier builds (real codec: unit nanbox)',
               'malloc does not fail'] + P.get('trusted', [])
    for u in {e.u.name: e.u for e in entries}.values():
        trusted += u.trust
    nobody = sorted({x for e in entries for x in e.nobody})
    if nobody:
        trusted.append('functions without a body in the verified unit, returning unconstrained values without side effects: ' + ' '.join(nobody))
    funcs = {}
    for e in entries:
        for f in e.o.get('contract', '').split():
            st = 'proved' if (e.status == 'proved' and e.mode == 'proof') else ('bounded' if e.status == 'proved' else e.status)
            funcs.setdefault(f, set()).add(st)
    pe = [e for e in entries if e.mode == 'proof' and e.r]
    be = [e for e in entries if e.mode == 'bounded']
    ev = {'property': pid, 'tier': tier, 'seed': SEED, 'level': P['level'],
          'coverage': {
              'obligations': sum(e.total for e in pe), 'discharged': sum(e.ok for e in pe),
              'checker_cmd': 'goto-cc; goto-instrument --replace-calls --apply-loop-contracts; cbmc (per entry command in coverage.entries)',
              'trusted_base': trusted,
              'backend': 'CBMC 6.11.0 bit-vector engine, MiniSat 2.2.1 unless an entry names another solver',
              'solver_seconds': round(sum(e.solver_s for e in entries), 2),
              'functions_under_contract': {f: sorted(s) for f, s in sorted(funcs.items())},
              'contract_executions_on_real_code_bounded': ['%s: %s' % x for x in sorted(native_runs)],
              'bounded_obligations': sum(e.total for e in be), 'bounded_discharged': sum(e.ok for e in be),
              'vacuity_guards': sum(e.reach[1] for e in entries), 'vacuity_guards_reached': sum(e.reach[0] for e in entries),
              'entries': [{'entry': e.id, 'mode': e.mode + (' (bound %s)' % e.bound(True) if e.mode != 'proof' else ''), 'status': e.status, 'obligations': e.total, 'discharged': e.ok,
                           'seconds': round(e.solver_s, 2), 'note': e.note[:300], 'contract': e.o.get('contract', ''), 'what': e.o.get('what', ''),
                           'cmd': re.sub(r'/tmp/\S*/', '', e.r.get('cmd', ''))} for e in entries],
          },
          'assumptions': P.get('assumptions', []) + trusted[3:],
          'wall_s': round(time.time() - T0, 2), 'violations': len(violations)}
    if P['level'] != 'proof':
        ev['coverage']['explanation'] = P.get('explanation', '')
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for k in load_known():
        if k[0] == pid:
            print('KNOWN-FINDING: property=%s %s' % (pid, k[2]))
    for e, rp in violations:
        print('VIOLATION property=%s replay=%s%s' % (pid, rp, '' if e.kind == 'concrete' else ' no-failing-input-found'))
    und = [e for e in entries if e.status == 'undecided']
    print('%s: %d entries, %d obligations, %d discharged, %d undecided, %d violations, %.1fs' % (
        pid, len(entries), sum(e.total for e in entries), sum(e.ok for e in entries), len(und), len(violations), time.time() - T0))
    return 1 if violations else 0


def dev(spec, opts):
    un, _, en = spec.partition(':')
    u = Unit(un)
    work = tempfile.mkdtemp(prefix='vp-dev-')
    try:
        for e in ([en] if en else list(u.entries)):
            E = Entry(u, e, work, 'thorough' if '--thorough' in opts else 'quick')
            if '--native' in opts:
                f = os.path.join(E.work, 'found.txt')
                print(e, *E.native('search', str(SEED), '8', f, timeout=60))
                if os.path.exists(f):
                    print(open(f).read().replace('\n', ' ')[:600])
                continue
            if '--refute' in opts:
                print(e, *E.refute(False))
                continue
            if E.mode == 'oracle':
                continue
            r = E.verify(bmc='--bmc' in opts)
            print('%-28s %-9s total=%d ok=%d reach=%s %.1fs %s' % (e, r['status'], r['total'], r['ok'], r['reach'], r.get('secs', 0), r['note'][-900:]))
            for x in r['failed'][:int(os.environ.get('VP_NF', '12'))]:
                print('     FAIL', x)
            for x in r['unwind_failed'][:5]:
                print('     UNWIND', x)
            if E.nobody:
                print('     nobody:', sorted(set(E.nobody)))
            if '-v' in opts:
                print(r['out'][-6000:])
    finally:
        if os.environ.get('VP_KEEP'):
            print(work)
        else:
            shutil.rmtree(work, ignore_errors=True)


def replay(spec, path):
    un, _, en = spec.partition(':')
    work = tempfile.mkdtemp(prefix='vp-replay-')
    try:
        E = Entry(Unit(un), en, work, 'quick')
        t = open(path).read()
        m = re.search(r'INPUTS\n(.*?)END', t, re.S)
        f = os.path.join(work, 'in.txt')
        open(f, 'w').write(m.group(1) if m else t)
        rc, out = E.native('replay', f)
        print(out)
        return 1 if rc == 1 else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
    a = sys.argv[1:]
    if a[0] == '--unit':
        dev(a[1], a[2:])
        sys.exit(0)
    if a[0] == '--replay':
        sys.exit(replay(a[1], a[2]))
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a:
        tier = a[a.index('--tier') + 1]
    sys.exit(run_property(a[0], tier))
