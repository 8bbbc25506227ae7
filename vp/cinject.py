"""Mechanical injection of loop contracts into a scratch copy of the real source.
Nothing is dropped or rewritten: the only edit is the insertion of __CPROVER_ loop clauses between a loop header and its body."""
import re


class InjectError(Exception):
    pass


def mask(src):
    """Blank comments, strings and char literals, preserving offsets."""
    out = list(src)
    i, n = 0, len(src)
    while i < n:
        c = src[i]
        if src.startswith('//', i):
            j = src.find('\n', i)
            j = n if j < 0 else j
            for k in range(i, j):
                out[k] = ' '
            i = j
        elif src.startswith('/*', i):
            j = src.find('*/', i)
            j = n if j < 0 else j + 2
            for k in range(i, j):
                if out[k] != '\n':
                    out[k] = ' '
            i = j
        elif c in '"\'':
            j = i + 1
            while j < n and src[j] != c:
                if src[j] == '\\':
                    j += 1
                j += 1
            for k in range(i + 1, min(j, n)):
                if out[k] != '\n':
                    out[k] = ' '
            i = j + 1
        else:
            i += 1
    return ''.join(out)


def _close(m, i):
    o = m[i]
    c = {'(': ')', '{': '}'}[o]
    d = 0
    while i < len(m):
        if m[i] == o:
            d += 1
        elif m[i] == c:
            d -= 1
            if d == 0:
                return i
        i += 1
    raise InjectError('unbalanced')


def func_range(m, name):
    for x in re.finditer(r'\b%s\s*\(' % re.escape(name), m):
        p = m.index('(', x.start())
        q = _close(m, p)
        r = re.match(r'\s*\{', m[q + 1:q + 200])
        if r:
            b = q + r.end()
            return b, _close(m, b)
    raise InjectError('no definition of function %s' % name)


def loops(m, b, e):
    """(kind, insertion offset, header text) for each loop of a function body, in source order."""
    res = []
    do_tails = set()
    for x in re.finditer(r'\b(for|while|do)\b', m[b:e]):
        kw = x.group(1)
        s = b + x.start()
        if kw == 'do':
            i = b + x.end()
            r = re.match(r'\s*\{', m[i:])
            if not r:
                continue
            ob = i + r.end() - 1
            cb = _close(m, ob)
            w = re.match(r'\s*while\s*\(', m[cb + 1:])
            if w:
                do_tails.add(cb + 1 + m[cb + 1:].index('while'))
            res.append(('do', i, 'do'))
            continue
        if s in do_tails:
            continue
        p = m.index('(', s)
        q = _close(m, p)
        res.append((kw, q + 1, re.sub(r'\s+', ' ', m[s:q + 1])))
    return res


def inject(src, specs, where=''):
    """specs: list of (function, loop index, expected loop count or None, clause text)."""
    m = mask(src)
    ins = []
    for func, idx, count, text, ghost in specs:
        b, e = func_range(m, func)
        L = loops(m, b, e)
        if count is not None and len(L) != count:
            raise InjectError('%s%s: %d loops where the contract expects %d' % (where, func, len(L), count))
        if idx >= len(L):
            raise InjectError('%s%s: loop %d not found' % (where, func, idx))
        if ghost:
            # ghost statement (lemma instantiation) as the first statement of the loop body
            r = re.match(r'\s*\{', m[L[idx][1]:])
            if not r:
                raise InjectError('%s%s: loop %d has no braces' % (where, func, idx))
            ins.append((L[idx][1] + r.end(), ghost))
        ins.append((L[idx][1], text))
    for p, t in sorted(ins, reverse=True):
        src = src[:p] + ' ' + t.replace('\n', ' ') + ' ' + src[p:]
    return src


def retarget(src, func, contract):
    """recursive calls of func inside its own body are checked against its contract: the callee name is replaced there"""
    m = mask(src)
    b, e = func_range(m, func)
    for x in reversed(list(re.finditer(r'\b%s\b' % re.escape(func), m[b:e]))):
        src = src[:b + x.start()] + contract + src[b + x.end():]
    return src
