"""Unit files: C text with //@ directives."""
import os
import re

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Unit:
    def __init__(self, name):
        self.name = name
        self.path = os.path.join(VERIF, 'units', name + '.c')
        self.src = []
        self.loops = []      # (file, func, idx, count, text)
        self.entries = {}
        self.trust = []
        self.cflags = []
        self.native_src = None
        cur = None
        joined = []
        for line in open(self.path):
            m = re.match(r'\s*//@\s?(.*)$', line)
            if not m:
                cur = None
                continue
            t = m.group(1)
            k = re.match(r'(\w+):\s*(.*)$', t)
            if k and k.group(1) in ('src', 'loop', 'entry', 'trust', 'cflags', 'native_src', 'unit'):
                cur = [k.group(1), k.group(2)]
                joined.append(cur)
            elif cur is not None:
                cur[1] += '\n' + t
        for k, v in joined:
            if k == 'src':
                self.src += v.split()
            elif k == 'native_src':
                self.native_src = v.split()
            elif k == 'cflags':
                self.cflags += v.split()
            elif k == 'trust':
                self.trust.append(' '.join(v.split()))
            elif k == 'loop':
                lines = v.split('\n')
                f = lines[0].split()
                count = int(f[2].split('/')[1]) if '/' in f[2] else None
                idx = int(f[2].split('/')[0])
                text = []
                for ln in ' \n'.join(lines[1:]).split('\n'):
                    ln = ln.strip()
                    mm = re.match(r'(assigns|inv|dec|ghost)\s+(.*)$', ln)
                    if mm:
                        text.append([mm.group(1), mm.group(2)])
                    elif ln and text:
                        text[-1][1] += ' ' + ln
                kw = {'assigns': '__CPROVER_assigns', 'inv': '__CPROVER_loop_invariant', 'dec': '__CPROVER_decreases'}
                self.loops.append((f[0], f[1], idx, count, ' '.join('%s(%s)' % (kw[a], b) for a, b in text if a != 'ghost'),
                                   ' '.join(b for a, b in text if a == 'ghost')))
            elif k == 'entry':
                parts = re.split(r'[;\n]+', v)
                d = {}
                name_ = parts[0].strip()
                for p in parts[1:]:
                    p = p.strip()
                    if not p:
                        continue
                    a, _, b = p.partition('=')
                    d[a.strip()] = b.strip()
                self.entries[name_] = d
