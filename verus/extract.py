#!/usr/bin/env python3
"""Mechanical extraction of functions of /repo into a Verus file.

A template (*.vt) is a Verus source file in which some lines are directives:

  //@fn PATH :: SCOPE :: NAME     the function NAME in the item whose header starts with SCOPE ('-' for the top level)
  //@text PATH :: SCOPE :: NAME the text of the function NAME (a constant table), rewritten to a specification by //@rsub
  //@arm PATH :: SCOPE :: FN :: PATTERN :: HEADER   the body of the match arm PATTERN in FN, as a function HEADER {body; Ok(())}
  //@ret NAME                     names the returned value
  //@self TYPE                    replaces the type of the receiver (`self` -> `this: TYPE`), for free-standing copies
  //@spec                         following lines: requires / ensures, inserted before the body
  //@prefix                       following lines: proof code at the start of the body
  //@loop K                       following lines: invariant / decreases of the K-th loop (0-based, in source order)
  //@loopbody K                   following lines: proof code at the start of the body of the K-th loop
  //@loopraw K                   following lines: ghost declarations at the start of the body of the K-th loop
  //@loopend K                   following lines: proof code at the end of the body of the K-th loop
  //@afterloop K                following lines: proof code after the K-th loop
  //@after TEXT                   following lines: proof code after the statement containing TEXT (first occurrence)
  //@rsub REGEX => TEMPLATE       as //@sub, for every match of a regular expression (possibly none)
  //@sub A => B                   textual replacement inside the extracted text (listed in the report)
  //@drop NAME                   drops the nested function NAME (it is extracted by a directive of its own, with the scope `fn OUTER`)
  //@expand                       expands the macros with a single arm of plain expressions which the function defines; then formats, joins and
                                  for loops: format!("a{}b", x) => glue(glue("a", &x), "b"), E.map(|P| B).join(S) => a loop, for x in it => a loop
  //@end
  //@struct PATH :: NAME [:: REGEX => TEMPLATE]  the struct/enum NAME, without attributes and doc comments
  //@const PATH :: NAME           the const NAME

What is dropped: visibility, attributes, comments; everything outside the named items. What is added: the contract, and
ghost (proof) code. What is changed: exactly the //@sub and //@rsub directives. The executable text is otherwise that of the working tree.
"""
import re, sys, json, os

REPO = os.environ.get('VERIF_REPO', '/repo')

class Lost(Exception):
    pass

def mask(s):
    """Same length text in which comments, strings and chars are blanked"""
    out = list(s); i = 0; n = len(s)
    def blank(a, b):
        for k in range(a, b):
            if out[k] != '\n': out[k] = ' '
    while i < n:
        if s.startswith('//', i):
            j = s.find('\n', i); j = n if j < 0 else j
            blank(i, j); i = j
        elif s.startswith('/*', i):
            d = 1; j = i + 2
            while j < n and d:
                if s.startswith('/*', j): d += 1; j += 2
                elif s.startswith('*/', j): d -= 1; j += 2
                else: j += 1
            blank(i, j); i = j
        elif s[i] == '"':
            j = i + 1
            while s[j] != '"': j += 2 if s[j] == '\\' else 1
            blank(i + 1, j); i = j + 1
        elif s[i] == "'":
            m = re.match(r"'(\\.[^']*|[^'\\])'", s[i:])
            if m: blank(i + 1, i + m.end() - 1); i += m.end()
            else: i += 1
        else: i += 1
    return ''.join(out)

def match(m, i):
    """index of the bracket closing the one at i"""
    pairs = {'{': '}', '(': ')', '[': ']'}
    o, c = m[i], pairs[m[i]]; d = 0
    for k in range(i, len(m)):
        if m[k] == o: d += 1
        elif m[k] == c:
            d -= 1
            if d == 0: return k
    raise Lost('unbalanced brackets')

def strip_comments(s):
    m = mask(s); out = []; i = 0
    while i < len(s):
        if s.startswith('//', i) and m[i] == ' ':
            j = s.find('\n', i); i = len(s) if j < 0 else j
        elif s.startswith('/*', i) and m[i] == ' ':
            j = i
            while j < len(s) and (m[j] in ' \n'): j += 1
            i = j
        else: out.append(s[i]); i += 1
    return ''.join(out)

def body_at(s, m, i, what):
    """the first top level '{' at or after i (skipping parentheses and brackets)"""
    k = i
    while k < len(m):
        if m[k] in '([': k = match(m, k)
        elif m[k] == '{': return k
        elif m[k] == ';': raise Lost(what + ' has no body')
        k += 1
    raise Lost(what)

def scopes(s, m, scope):
    """ranges of the bodies of all items whose header starts with `scope`"""
    if scope == '-': return [(0, len(s))]
    r = []
    for h in re.finditer(r'(?m)^[ \t]*(?:pub(?:\([^)]*\))? )?(?:unsafe )?' + re.escape(scope).replace(r'\ ', r'\s+') + r'(?![\w])', m):
        # an attribute #[cfg(kani)] or #[cfg(test)] directly before excludes the item
        before = s[:h.start()].rstrip().rsplit('\n', 1)[-1].strip()
        if before in ('#[cfg(kani)]', '#[cfg(test)]'): continue
        b = body_at(s, m, h.end(), scope)
        r.append((b + 1, match(m, b)))
    if not r: raise Lost('item not found: ' + scope)
    return r

def find_fn(path, scope, name):
    s = open(os.path.join(REPO, path)).read(); m = mask(s)
    hits = []
    for a, b in scopes(s, m, scope):
        for h in re.finditer(r'\bfn\s+' + re.escape(name) + r'\b', m[a:b]):
            i = a + h.start()
            if scope != '-':
                depth = m[a:i].count('{') - m[a:i].count('}')
                if depth: continue
            elif m[:i].count('{') != m[:i].count('}'): continue
            k = body_at(s, m, i, name)
            hits.append(s[i:match(m, k) + 1])
    if len(hits) != 1: raise Lost('%s: %d functions %s in %s' % (path, len(hits), name, scope))
    return strip_comments(hits[0])

def find_struct(path, name):
    s = open(os.path.join(REPO, path)).read(); m = mask(s)
    h = re.search(r'\b(struct|enum)\s+' + re.escape(name) + r'\b', m)
    if not h: raise Lost('struct not found: ' + name)
    i = h.start()
    e = re.compile(r'[;{]').search(m, i)
    end = match(m, e.start()) if e.group() == '{' else e.start()
    t = strip_comments(s[i:end + 1])
    t = re.sub(r'#\[[^\]]*\]', '', t)
    t = re.sub(r'\bpub(\([^)]*\))?\s+', '', t)
    return t

def find_const(path, name):
    s = open(os.path.join(REPO, path)).read(); m = mask(s)
    h = re.search(r'\bconst\s+' + re.escape(name) + r'\s*:', m)
    if not h: raise Lost('const not found: ' + name)
    return strip_comments(s[h.start():m.index(';', h.start()) + 1])

def loops(m):
    """(header start, index of '{') of each loop"""
    r = []
    for h in re.finditer(r'\b(while|for|loop)\b', m):
        if h.group(1) == 'for' and m[h.end():].lstrip().startswith('<'): continue
        r.append((h.start(), body_at(m, m, h.end(), 'loop')))
    return r

def find_arm(path, scope, name, pattern, header):
    t = find_fn(path, scope, name); m = mask(t)
    hits = [h for h in re.finditer(r'(?m)^[ \t]*' + re.escape(pattern) + r'\s*=>\s*', m)]
    if len(hits) != 1: raise Lost('%s: %d arms %s' % (name, len(hits), pattern))
    i = hits[0].end()
    if m[i] == '{':
        body = t[i + 1:match(m, i)]
    else:
        k = i
        while m[k] not in ',}':
            k = match(m, k) + 1 if m[k] in '([{' else k + 1
        body = t[i:k]
    return '%s {\n%s;\nOk(())\n}' % (header, body.rstrip().rstrip(';'))

def other_arms(t, keep, body):
    """Replaces the arms of the first match which do not match `keep` (in their pattern or body)"""
    m = mask(t); h = re.search(r'\bmatch\b', m)
    if not h: return t
    b = body_at(t, m, h.end(), 'match'); end = match(m, b); k = b + 1; edits = []
    while True:
        a = m.find('=>', k, end)
        if a < 0: break
        i = a + 2
        while m[i].isspace(): i += 1
        e = i
        if m[i] == '{': e = match(m, i) + 1
        else:
            while e < end and m[e] != ',': e = match(m, e) + 1 if m[e] in '([{' else e + 1
        if not re.search(keep, t[k:e]): edits.append((i, e))
        k = e
    for i, e in reversed(edits): t = t[:i] + '{ ' + body + ' }' + t[e:]
    return t

def split_args(t):
    m = mask(t); out = []; k = 0; i = 0
    while i < len(m):
        if m[i] in '([{': i = match(m, i)
        elif m[i] == ',': out.append(t[k:i].strip()); k = i + 1
        i += 1
    if t[k:].strip(): out.append(t[k:].strip())
    return out

def expand_local_macros(t):
    """Expands the uses of the macros which the text itself defines, with one arm, whose parameters are expressions"""
    while True:
        m = mask(t); h = re.search(r'\bmacro_rules!\s*(\w+)\s*\{', m)
        if not h: return t
        b = h.end() - 1; e = match(m, b); inner = t[b + 1:e].strip(); name = h.group(1); mi = mask(inner)
        p = match(mi, 0); params = [x.strip() for x in inner[1:p].split(',') if x.strip()]
        if any(not re.fullmatch(r'\$\w+\s*:\s*expr', x) for x in params): raise Lost('macro %s: parameters' % name)
        params = [x.split(':')[0].strip() for x in params]
        q = body_at(inner, mi, p + 1, name); end = match(mi, q)
        if inner[end + 1:].strip(' \n;'): raise Lost('macro %s: several arms' % name)
        body = inner[q + 1:end].strip()
        t = t[:h.start()] + t[e + 1:]
        while True:
            m = mask(t); u = re.search(r'\b%s!\s*\(' % name, m)
            if not u: break
            e = match(m, u.end() - 1); args = split_args(t[u.end():e])
            if len(args) != len(params): raise Lost('macro %s: arguments' % name)
            new = body
            for x, a in zip(params, args): new = re.sub(re.escape(x) + r'\b', lambda _: '(' + a + ')', new)
            t = t[:u.start()] + new + t[e + 1:]

def drop_nested(t, name):
    m = mask(t); h = re.search(r'\bfn\s+%s\b' % re.escape(name), m)
    if not h: raise Lost('nested function not found: ' + name)
    b = body_at(t, m, h.end(), name)
    return t[:h.start()] + t[match(m, b) + 1:]

def expand_formats(t):
    """format!("a{}b{}", x, y) => glue(glue(glue("a", &(x)), "b"), &(y)), and E.map(|P| B).join(S) => a loop which collects the parts"""
    n = 0
    while True:
        m = mask(t); h = None
        for h in re.finditer(r'\.map\s*\(\|', m):
            e = match(m, m.index('(', h.start())); j = re.compile(r'\s*\.join\s*\(').match(m, e + 1)
            if j: break
        else: break
        je = match(m, j.end() - 1); k = h.start(); sep = t[j.end():je]
        # the receiver: back to an opening bracket, a comma or an =
        while k > 0 and m[k - 1] not in '([{,=;':
            if m[k - 1] in ')]':
                d = 0
                while True:
                    k -= 1
                    if m[k] in ')]}': d += 1
                    elif m[k] in '([{':
                        d -= 1
                        if d == 0: break
            else: k -= 1
        recv = t[k:h.start()]; c = t[h.end():e]; mc = mask(c); i = 0
        while mc[i] != '|': i = match(mc, i) + 1 if mc[i] in '([{' else i + 1
        t = '%s{ let mut parts_%d: Vec<String> = Vec::new(); let mut it_%d = %s; while let Some(%s) = it_%d.next() { let part = %s; parts_%d.push(part); } join(&parts_%d, %s) }%s' % (t[:k], n, n, recv.strip(), c[:i], n, c[i + 1:], n, n, sep, t[je + 1:])
        n += 1
    while True:
        m = mask(t); h = re.search(r'\bformat!\s*\(', m)
        if not h: break
        e = match(m, h.end() - 1); args = split_args(t[h.end():e]); lit = args.pop(0)
        if lit[0] != '"': raise Lost('format! of no literal')
        parts = re.split(r'(\{\{|\}\}|\{[^{}]*\})', lit[1:-1]); seq = []; text = ''
        for x in parts:
            if x == '{{': text += '{'
            elif x == '}}': text += '}'
            elif x.startswith('{'):
                if text: seq.append('"%s"' % text); text = ''
                if not args and not x[1:-1]: raise Lost('format! arguments')
                if x == '{}': seq.append('&(%s)' % args.pop(0))
                elif x == '{:?}': seq.append('&debug_text(&(%s))' % args.pop(0))
                else: raise Lost('format! with ' + x)
            else: text += x
        if text: seq.append('"%s"' % text)
        r = 'glue("", %s)' % seq[0]
        for x in seq[1:]: r = 'glue(%s, %s)' % (r, x)
        t = t[:h.start()] + r + t[e + 1:]
    while True:
        m = mask(t); h = re.search(r'\bfor\s+(\w+|\([^()]*\))\s+in\s+', m)
        if not h: break
        b = body_at(t, m, h.end(), 'for')
        src = t[h.end():b].strip()
        if re.fullmatch(r'\w+', src): t = t[:h.start()] + 'while let Some(%s) = %s.next() ' % (h.group(1), src) + t[b:]
        else: t = t[:h.start()] + 'let mut iter_%d = %s; while let Some(%s) = iter_%d.next() ' % (n, src, h.group(1), n) + t[b:]; n += 1
    return t

def build_fn(d):
    text = find_arm(d['path'], d['scope'], d['name'], d['pattern'], d['header']) if 'pattern' in d else find_fn(d['path'], d['scope'], d['name'])
    original = text
    for a, b in d['sub']:
        if a not in text: raise Lost('%s: text to replace not found: %s' % (d['name'], a))
        text = text.replace(a, b)
    for x in d['drop']: text = drop_nested(text, x)
    if d['expand']: text = expand_formats(expand_local_macros(text))
    if d.get('otherarms'): text = other_arms(text, *d['otherarms'])
    for a, b in d['rsub']: text = re.sub(a, b, text)
    m = mask(text)
    k = body_at(text, m, m.index('('), d['name'])
    edits = []   # (position, text)
    ls = loops(m[:])
    for n, t in d['loop'].items():
        if n >= len(ls): raise Lost('%s: loop %d not found' % (d['name'], n))
        edits.append((ls[n][1], '\n' + t + '\n'))
    for n, t in d['loopbody'].items():
        if n >= len(ls): raise Lost('%s: loop %d not found' % (d['name'], n))
        edits.append((ls[n][1] + 1, '\nproof {\n' + t + '\n}\n'))
    for n, t in d['loopraw'].items():
        if n >= len(ls): raise Lost('%s: loop %d not found' % (d['name'], n))
        edits.append((ls[n][1] + 1, '\n' + t + '\n'))
    for n, t in d['loopend'].items():
        if n >= len(ls): raise Lost('%s: loop %d not found' % (d['name'], n))
        edits.append((match(m, ls[n][1]), '\nproof {\n' + t + '\n}\n'))
    for n, t in d['afterloop'].items():
        if n >= len(ls): raise Lost('%s: loop %d not found' % (d['name'], n))
        edits.append((match(m, ls[n][1]) + 1, '\nproof {\n' + t + '\n}\n'))
    if len(ls) != d['nloops'] and d['nloops'] is not None: raise Lost('%s: %d loops, expected %d' % (d['name'], len(ls), d['nloops']))
    for a, t in d['after']:
        i = text.find(a)
        if i < 0: raise Lost('%s: anchor not found: %s' % (d['name'], a))
        edits.append((m.index(';', i + len(a) - 1) + 1, '\nproof {\n' + t + '\n}\n'))
    if d['prefix']: edits.append((k + 1, '\n' + d['prefix'] + '\n'))
    sig = text[:k]
    if d['ret']:
        p = match(m, m.index('('))
        r = re.compile(r'->\s*').search(sig, p)
        if not r: raise Lost('%s: no return type' % d['name'])
        w = re.compile(r'\bwhere\b').search(sig, r.end())
        te = w.start() if w else len(sig)
        edits.append((r.end(), '(%s: ' % d['ret'])); edits.append((te, ') '))
    edits.append((k, '\n' + d['spec'] + '\n'))
    # stable order for equal positions: in order of insertion
    out = text
    for _, (pos, t) in sorted(enumerate(edits), key=lambda e: (-e[1][0], -e[0])):
        out = out[:pos] + t + out[pos:]
    return out, original

TESTS = {'bool': 'is_nil is_bool is_true is_int is_precise_int is_str is_list is_dict is_set is_heap is_vector is_struct is_evaluable is_iterable is_function is_closure is_complex is_rational is_err is_ok to_bool as_bool'.split(),
         'i64': ['as_int', 'as_precise_int'], 'usize': ['as_ptr_value']}
def tests_on_values(text):
    """Declares the tests on values which the template does not mention, with an unknown result: code which starts to use one is
    judged by what it does for either result, instead of being outside of what the verifier can read"""
    if not re.search(r'\bstruct ValuePtr\b', text): return text
    fs = []
    for ty, names in TESTS.items():
        for n in names:
            if not re.search(r'\bfn\s+%s\b' % n, text): fs.append('uninterp spec fn unknown_%s(&self) -> %s; #[verifier::external_body] fn %s(&self) -> (r: %s) ensures r == self.unknown_%s() { unimplemented!() }' % (n, ty, n, ty, n))
    t = text.split('\n')
    k = next(i for i, l in enumerate(t) if l.startswith('verus!'))
    # on the same line, so that the numbers of lines stay
    t[k] += ' impl ValuePtr { ' + ' '.join(fs) + ' }'
    return '\n'.join(t)

def build(template, canary=False):
    """Returns (verus text, report). With canary, the i-th function additionally claims `!canary_(i)`, for an uninterpreted
    function canary_: this can only be proven by a contradiction, and is no help to its callers"""
    lines = open(template).read().split('\n'); out = []; i = 0
    report = []
    while i < len(lines):
        l = lines[i].strip()
        if l.startswith('//@fn ') or l.startswith('//@arm ') or l.startswith('//@text '):
            arm = l.startswith('//@arm '); table = l.startswith('//@text ')
            if arm: path, scope, name, pattern, header = [x.strip() for x in l[7:].split(' :: ')]
            else: path, scope, name = [x.strip() for x in l.split(' ', 1)[1].split(' :: ')]
            d = dict(path=path, scope=scope, name=name, ret=None, spec='', prefix='', loop={}, loopbody={}, loopraw={}, loopend={}, afterloop={}, after=[], sub=[], rsub=[], drop=[], expand=False, nloops=None)
            if arm: d.update(pattern=pattern, header=header)
            cur = None; i += 1
            def flush():
                nonlocal cur
                if cur:
                    kind, arg, buf = cur; t = '\n'.join(buf)
                    if kind in ('spec', 'prefix'): d[kind] = t
                    elif kind in ('loop', 'loopbody', 'loopraw', 'loopend', 'afterloop'): d[kind][int(arg)] = t
                    elif kind == 'after': d['after'].append((arg, t))
                cur = None
            while lines[i].strip() != '//@end':
                q = lines[i].strip()
                if q.startswith('//@'):
                    flush()
                    kind, _, arg = q[3:].partition(' ')
                    if kind == 'ret': d['ret'] = arg.strip()
                    elif kind == 'loops': d['nloops'] = int(arg)
                    elif kind == 'drop': d['drop'].append(arg.strip())
                    elif kind == 'expand': d['expand'] = True
                    elif kind == 'sub':
                        a, _, b = arg.partition(' =>'); d['sub'].append((a.strip().replace('\\n', '\n'), b.strip()))
                    elif kind == 'rsub':
                        a, _, b = arg.partition(' =>'); d['rsub'].append((a.strip(), b.strip()))
                    elif kind == 'otherarms':
                        a, _, b = arg.partition(' =>'); d['otherarms'] = (a.strip(), b.strip())
                    else: cur = (kind, arg.strip(), [])
                else: cur[2].append(lines[i])
                i += 1
            flush()
            if table:
                text = find_fn(path, scope, name)
                for a, b in d['rsub']: text = re.sub(a, b, text)
                out.append(text); i += 1; continue
            if canary:
                c = 'ensures\n!canary_(%d),\n' % len(report)
                d['spec'] = re.sub(r'\bensures\b', c, d['spec'], count=1) if re.search(r'\bensures\b', d['spec']) else d['spec'] + '\n' + c
            text, original = build_fn(d)
            out.append(text)
            report.append(dict(function='%s %s::%s%s' % (path, scope, name, ' (arm %s)' % pattern if arm else ''), substitutions=['%s => %s' % x for x in d['sub'] + d['rsub']] + (['arms of the match without %s => %s' % d['otherarms']] if d.get('otherarms') else [])))
        elif l.startswith('//@struct '):
            path, name, *subs = [x.strip() for x in l[10:].split(' :: ')]
            text = find_struct(path, name)
            for x in subs:
                a, _, b = x.partition(' =>'); text = re.sub(a.strip(), b.strip(), text)
            out.append(text)
        elif l.startswith('//@const '):
            path, name = [x.strip() for x in l[9:].split(' :: ')]
            out.append(find_const(path, name))
        else: out.append(lines[i])
        i += 1
    out = ['\n'.join(out)]; out[0] = tests_on_values(out[0])
    out = out[0].split('\n')
    if canary: out.insert(next(i for i, l in enumerate(out) if l.startswith('verus!')) + 1, 'uninterp spec fn canary_(i: int) -> bool;')
    return '\n'.join(out), report

if __name__ == '__main__':
    t, r = build(sys.argv[1], len(sys.argv) > 2); print(t); print(json.dumps(r, indent=1), file=sys.stderr)
