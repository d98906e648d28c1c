"""Mechanical loop annotation.

Copies a C source file of /repo unchanged except that, for each loop named by a
unit, the text ` LSQ_LOOP_<function>_<n> ` is inserted between the loop head and
the loop body .  Nothing is removed, no line is moved:
line numbers stay those of /repo.  CBMC takes no contract on a do-loop: one named by a unit,
`do BODY while (C);`, is written `for (int lsq_do_<n> = 1; lsq_do_<n> || (C); lsq_do_<n> = 0) BODY ;`
(the same runs of BODY and C, `break` and `continue` included), C's text copied.  The macro expands to CBMC loop-contract clauses
(defined by the harness).  In the same functions an unused local LSQ_PAD_<function>_<n> = 0 is
added between two declarators that have no initialiser.  A loop named by @ghost also gets
` LSQ_GHOST_<function>_<n> ` at the start of its controlling expression (for do-loops: of its
body), which the harness defines as a re-statement of a pointer the loop contract havocs: the
same object, the same offset (that it is in that object is an obligation), so that it can be
followed.  The bounded variant adds nothing.
"""
import re

TOK = re.compile(r'''
    (?P<ws>\s+|\\\n)
  | (?P<com>/\*.*?\*/|//[^\n]*)
  | (?P<pp>^[ \t]*\#(?:[^\n\\]|\\.|\\\n)*)
  | (?P<str>"(?:[^"\\\n]|\\.)*"|'(?:[^'\\\n]|\\.)*')
  | (?P<id>[A-Za-z_]\w*)
  | (?P<num>\.?\d(?:[\w.]|[eE][+-])*)
  | (?P<op>.)
''', re.X | re.S | re.M)


SCALAR = {'size_t', 'ssize_t', 'int', 'short', 'char', 'unsigned', 'long', 'sqfs_off_t', 'off_t', 'bool',
          'uint8_t', 'uint16_t', 'uint32_t', 'uint64_t', 'int8_t', 'int16_t', 'int32_t', 'int64_t'}


def tokens(text):
    out = []
    for m in TOK.finditer(text):
        k = m.lastgroup
        if k in ('ws', 'com', 'pp'):
            continue
        out.append((k, m.group(), m.start(), m.end()))
    return out


def match(toks, i, o, c):
    d = 0
    while i < len(toks):
        t = toks[i][1]
        if toks[i][0] == 'op':
            if t == o:
                d += 1
            elif t == c:
                d -= 1
                if d == 0:
                    return i
        i += 1
    raise ValueError('unbalanced')


def functions(text):
    """name -> (first body token index, last body token index), and the tokens"""
    toks = tokens(text)
    res = {}
    i = 0
    while i < len(toks):
        k, t = toks[i][0], toks[i][1]
        if k == 'op' and t == '{':
            # function body iff preceded by `name ( ... )`
            j = i - 1
            name = None
            if j >= 0 and toks[j][1] == ')':
                d = 0
                while j >= 0:
                    if toks[j][0] == 'op' and toks[j][1] == ')':
                        d += 1
                    elif toks[j][0] == 'op' and toks[j][1] == '(':
                        d -= 1
                        if d == 0:
                            break
                    j -= 1
                if j > 0 and toks[j - 1][0] == 'id':
                    name = toks[j - 1][1]
            e = match(toks, i, '{', '}')
            if name:
                res[name] = (i, e)
            i = e + 1
            continue
        i += 1
    return res, toks


def loops(toks, b, e):
    """textual order list of the insertion offsets of the loops in a body"""
    out = []
    dowhile = set()
    i = b
    while i <= e:
        k, t = toks[i][0], toks[i][1]
        if k == 'id' and t in ('for', 'while') and i not in dowhile:
            c = match(toks, i + 1, '(', ')')
            out.append((toks[i][2], toks[c][3]))
        elif k == 'id' and t == 'do':
            if toks[i + 1][1] == '{':
                c = match(toks, i + 1, '{', '}')
                dowhile.add(c + 1)
                p = match(toks, c + 2, '(', ')')
                if not (toks[c + 3][1] == '0' and p == c + 4):     # do { } while (0) is no loop
                    # `do`, the condition inside its brackets, the trailing `while (...)`
                    out.append((toks[i][2], ((toks[i][2], toks[i][3]), (toks[c + 2][3], toks[p][2]), (toks[c + 1][2], toks[p][3]))))
        i += 1
    out.sort()
    return [o[1] for o in out]


def ghosts(toks, b, e):
    """textual order list of the offsets where a loop's ghost statement goes"""
    out = []
    dowhile = set()
    for i in range(b, e + 1):
        k, t = toks[i][0], toks[i][1]
        if k == 'id' and t == 'while' and i not in dowhile:
            out.append((toks[i][2], toks[i + 1][3]))
        elif k == 'id' and t == 'for':
            c = match(toks, i + 1, '(', ')')
            d = 0
            for j in range(i + 1, c):
                d += (toks[j][1] in ('(', '{')) - (toks[j][1] in (')', '}'))
                if d == 1 and toks[j][1] == ';':
                    out.append((toks[i][2], toks[j][3] if toks[j + 1][1] != ';' else None))
                    break
        elif k == 'id' and t == 'do' and toks[i + 1][1] == '{':
            c = match(toks, i + 1, '{', '}')
            dowhile.add(c + 1)
            p = match(toks, c + 2, '(', ')')
            if not (toks[c + 3][1] == '0' and p == c + 4):
                out.append((toks[i][2], toks[i + 1][3]))
    out.sort()
    return [o[1] for o in out]


def annotate(text, wanted, ghost=()):
    """wanted, ghost: lists of (function, n). Returns (text, missing list)."""
    fns, toks = functions(text)
    ins, missing = [], []
    for fn, n in wanted:
        if fn not in fns:
            missing.append('%s: no such function' % fn)
            continue
        ls = loops(toks, *fns[fn])
        if n >= len(ls):
            missing.append('%s: no loop %d' % (fn, n))
            continue
        mark = ' LSQ_LOOP_%s_%d ' % (fn, n)
        if isinstance(ls[n], int):
            ins.append((ls[n], mark))
            continue
        (d0, d1), (c0, c1), (w0, w1) = ls[n]
        cond = text[c0:c1]
        if '\n' in cond or '//' in cond:
            cond = ' '.join(re.sub(r'//[^\n]*', '', cond).split())
        ins.append((d0, d1, 'for (int lsq_do_%d = 1; lsq_do_%d || (%s); lsq_do_%d = 0)%s' % (n, n, cond, n, mark)))
        ins.append((w0, w1, re.sub(r'[^\n]', '', text[w0:w1])))
    for fn, n in ghost:
        gs = ghosts(toks, *fns[fn]) if fn in fns else []
        if n >= len(gs) or gs[n] is None:
            missing.append('%s: no place for a ghost statement in loop %d' % (fn, n))
            continue
        ins.append((gs[n], ' LSQ_GHOST_%s_%d ' % (fn, n)))
    # goto-instrument's loop instrumentation misses a declaration that directly follows
    # another one: separate `T a, b;` into `T a, lsq_pad = 0, b;` (an unused local)
    for fn in {f for f, _ in wanted if f in fns}:
        b, e = fns[fn]
        n = 0
        for i in range(b, e - 4):
            if toks[i][1] in '{;}' and toks[i + 1][1] in SCALAR and toks[i + 2][0] == 'id':
                j = i + 3
                while toks[j][1] == ',' and toks[j + 1][0] == 'id' and toks[j + 2][1] in ',;':
                    ins.append((toks[j][3], ' LSQ_PAD_%s_%d = 0,' % (fn, n)))
                    n += 1
                    j += 2
    for x in sorted(ins, reverse=True):
        text = text[:x[0]] + x[-1] + text[x[1] if len(x) == 3 else x[0]:]
    return text, missing


def loop_count(text, fn):
    fns, toks = functions(text)
    return len(loops(toks, *fns[fn])) if fn in fns else None
