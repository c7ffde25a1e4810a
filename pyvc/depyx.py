"""Cython to Python, mechanically: C declarations are dropped, nothing else.

Dropped: cimport and ctypedef lines, types of arguments and variables, the
'cp' of cpdef.  C integers (intp) are treated as mathematical, C doubles as
reals; bounds checks and Python division are the defaults of Cython (a file
that changes the defaults is not converted)."""
import re
from .core import Unsupported

TYPE = r'(?:[A-Za-z_][\w.]*(?:\s*\[[^\]]*\])?(?:\s*\*)?)'


def convert(src):
    if re.search(r'boundscheck|wraparound|cdivision|nogil|\bcdef\s+(class|struct|extern|enum)', strip_comments(src)):
        raise Unsupported('directives or constructs of Cython that change the semantics')
    out = []
    lines = src.split('\n')
    k = 0
    while k < len(lines):
        l = lines[k]
        s = l.strip()
        ind = l[:len(l) - len(l.lstrip())]
        if s.startswith('#') or not s:
            out.append(l)
        elif re.match(r'(cimport\b|from\s+\S+\s+cimport\b|ctypedef\b)', s):
            out.append(ind + ('pass' if ind else ''))
        elif re.match(r'cpdef\b|cdef\s+[^=]*\)\s*(except[^:]*)?(nogil)?:|cdef\s+(inline\s+)?[\w.\[\]:,\s]*\(', s) and '(' in s and '=' not in s.split('(')[0]:
            head = l
            n = 0
            while head.count('(') > head.count(')'):
                k += 1
                n += 1
                head += ' ' + lines[k].strip()
            m = re.match(r'\s*(?:cpdef|cdef)\s+(?:inline\s+)?(?:%s\s+)?(\w+)\s*\((.*)\)\s*(?:except[^:]*)?:\s*(.*)$' % TYPE, head)
            if not m:
                raise Unsupported('declaration of a Cython function: ' + head)
            args = [untype(a) for a in split_args(m.group(2))]
            out.append('%sdef %s(%s): %s' % (ind, m.group(1), ', '.join(args), m.group(3)))
            out.extend([''] * n)
        elif re.match(r'def\b', s) and '(' in s and s.endswith(':') and s.count('(') == s.count(')'):
            m = re.match(r'(\s*def\s+\w+\s*\()(.*)(\)\s*:)$', l.rstrip())
            if m:
                out.append(m.group(1) + ', '.join(untype(a) for a in split_args(m.group(2))) + m.group(3))
            else:
                out.append(l)
        elif s.startswith('cdef '):
            m = re.match(r'cdef\s+%s\s+(.*)$' % TYPE, s)
            if not m:
                raise Unsupported('declaration of Cython: ' + s)
            decl = [d for d in split_args(m.group(1).split('#')[0]) if '=' in d]
            out.append(ind + ('; '.join(d.strip() for d in decl) if decl else 'pass'))
        else:
            out.append(l)
        k += 1
    return '\n'.join(out)


def strip_comments(s):
    return '\n'.join(l.split('#')[0] for l in s.split('\n'))


def split_args(s):
    out, cur, depth = [], '', 0
    for ch in s:
        if ch in '([{':
            depth += 1
        if ch in ')]}':
            depth -= 1
        if ch == ',' and depth == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur)
    return [x.strip() for x in out]


def untype(a):
    d = ''
    if '=' in a:
        a, d = a.split('=', 1)
        d = '=' + d
    m = re.match(r'^(?:%s\s+)?(\w+)\s*$' % TYPE, a.strip())
    if not m:
        raise Unsupported('argument of a Cython function: ' + a)
    return m.group(1) + d
