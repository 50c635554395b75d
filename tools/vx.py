"""Mechanical extraction of real functions of /repo into a Verus input file.

A template (specs/*.vrs) is a Verus source file in which directive lines, all
starting with `//@@`, stand for items of /repo.  Everything an extracted
function executes comes from /repo's current source; the template only adds
contracts, loop invariants and ghost code, and applies the rewrites it states.

Directives
  //@@ item FILE | PATH            an item (struct, enum, const, type) verbatim
  //@@ fn FILE | PATH              a function; PATH = "impl HEADER :: name" or "name"
  ...sections until `//@@ end`:
  //@@ ret NAME                    name the return value
  //@@ spec                        requires/ensures/decreases, put before the body
  //@@ loop N                      invariant/decreases of the N-th loop (1-based, source order)
  //@@ loopstart N / loopend N     ghost code at the start / end of the N-th loop body
  //@@ start                       ghost code at the start of the body
  //@@ before [OPT] /REGEX/ / //@@ after [OPT] /REGEX/   ghost code before/after the statement text matched
  //@@ tail NAME                   name the tail expression of the body, ghost code behind it
  //@@ sub [OPT] /REGEX/ => REPL   stated rewrite of source text (recorded in the evidence)
  //@@ gsub /REGEX/ => REPL      a stated rewrite of every item below, up to //@@ gclear
  //@@ bytes [inline]              string literals as arrays of their bytes: b"…" as (&[…]), "…" as lit(&[…]);
                                  unless inline through functions b_…() with `ensures r@ == BYTES("…")`
  BYTES("…") in specifications     these bytes, opaque; REVEAL("…") reveals them; //@@ literals: where they are defined
  //@@ hoist NAME                 leave out the nested item NAME (it is extracted on its own)
  //@@ include FILE [assumed]     the text of another file; assumed: contracts and lemmas without their proofs, which are in another unit
  //@@ jumptable PATH             a method that tagged_union_with_jump_tables! made of `match *self`:
                                  the n-th closure of JUMP_TABLE becomes the function that is called for the n-th variant of
                                  the enum PATH; its contract is the text below, with $self for the value of self
  //@@ propmap                    a function over `static MAP: phf::Map<&str, PropertyData>`: the closure of the n-th entry becomes
                                  the function entry_n with the contract below ($name: the key); the lookup becomes a chain of
                                  comparisons with the keys, in the order of the entries
  //@@ strmatch                   `match E { "a" | "b" => X, …, _ => Z }` as the chain of comparisons that it stands for
  //@@ closure NAME => HEADER      the closure `let NAME = |…| {…};` of the function, as a function with this header ($params: its
                                  parameters); dropclosure NAME: without its definition
  //@@ hdr TEXT                    replace the signature's text up to the body by TEXT (recorded)
A directive that finds nothing raises Lost (unless OPT): the caller then falls
back to the bounded check, and does not raise an alarm.
"""
import re, sys, os, subprocess, hashlib, threading


class Lost(Exception):
    pass


TOK = re.compile(r'''
  (?P<ws>\s+)
 |(?P<lc>//[^\n]*)
 |(?P<bc>/\*)
 |(?P<rstr>b?r(?P<h>\#*)".*?"(?P=h))
 |(?P<str>b?"(?:\\.|[^"\\])*")
 |(?P<chr>b?'(?:\\(?:x[0-9a-fA-F]{2}|u\{[0-9a-fA-F_]+\}|.)|[^'\\\n])')
 |(?P<life>'[A-Za-z_][A-Za-z0-9_]*)
 |(?P<id>(?:r\#)?[A-Za-z_][A-Za-z0-9_]*)
 |(?P<num>[0-9](?:[0-9a-zA-Z_]|\.(?=[0-9]))*\.?(?![.A-Za-z_]))
 |(?P<num2>[0-9][0-9a-zA-Z_]*)
 |(?P<op>::|->|=>|\.\.=|\.\.\.|\.\.|<<=|>>=|==|!=|<=|>=|&&|\|\||\+=|-=|\*=|/=|%=|\^=|&=|\|=|.)
''', re.X | re.S)


def tokens(src):
    """list of (kind, text, start, end), comments and white space dropped"""
    out = []
    i = 0
    n = len(src)
    while i < n:
        m = TOK.match(src, i)
        k = m.lastgroup
        if k == 'h':
            k = 'rstr'
        if k == 'bc':
            depth = 1
            j = m.end()
            while depth and j < n:
                if src.startswith('/*', j):
                    depth += 1; j += 2
                elif src.startswith('*/', j):
                    depth -= 1; j += 2
                else:
                    j += 1
            i = j
            continue
        if k not in ('ws', 'lc'):
            out.append((k, m.group(0), m.start(), m.end()))
        i = m.end()
    return out


OPEN = {'(': ')', '[': ']', '{': '}'}


def match_close(toks, i):
    """index of the token closing the bracket at i"""
    depth = 0
    for j in range(i, len(toks)):
        t = toks[j][1]
        if toks[j][0] == 'op':
            if t in OPEN:
                depth += 1
            elif t in (')', ']', '}'):
                depth -= 1
                if depth == 0:
                    return j
    raise Lost('unbalanced')


def norm(s):
    return ' '.join(t[1] for t in tokens(s))


KW_ITEM = {'fn', 'struct', 'enum', 'impl', 'mod', 'trait', 'const', 'static', 'type', 'use', 'macro_rules', 'extern'}


def items(src, toks, lo, hi):
    """top-level items among toks[lo:hi]: dicts kind,name/header,start,end,(body lo,hi)"""
    i = lo
    while i < hi:
        start = i
        # attributes
        while i < hi and toks[i][1] == '#':
            j = i + 1
            if toks[j][1] == '!':
                j += 1
            i = match_close(toks, j) + 1
        vis = i
        block = False
        while i < hi and not (toks[i][0] == 'id' and toks[i][1] in KW_ITEM):
            if toks[i][1] in OPEN:
                i = match_close(toks, i) + 1
                if toks[i - 1][1] == '}' and (i >= hi or toks[i][1] != ';'):
                    block = True
                    break          # macro invocation foo! { … }
                continue
            if toks[i][1] == ';':
                break
            i += 1
        if i >= hi:
            return
        if block:
            continue
        kw = toks[i][1]
        if kw not in KW_ITEM:
            i += 1
            continue
        # `const fn`, `unsafe fn`
        if kw in ('const', 'extern') and any(toks[k][1] == 'fn' for k in range(i, min(i + 3, hi))):
            while toks[i][1] != 'fn':
                i += 1
            kw = 'fn'
        kwi = i
        name = toks[i + 1][1] if kw != 'macro_rules' else toks[i + 2][1]
        # header up to { or ;
        j = i + 1
        while j < hi and toks[j][1] not in ('{', ';'):
            if toks[j][1] in ('(', '['):
                j = match_close(toks, j) + 1
            else:
                j += 1
        if j >= hi:
            return
        body = None
        if toks[j][1] == '{':
            e = match_close(toks, j)
            body = (j, e)
            if kw in ('const', 'static', 'use', 'type') :
                e = e
                while toks[e][1] != ';':
                    e += 1
        else:
            e = j
        header = ' '.join(t[1] for t in toks[kwi:j])
        yield dict(kind=kw, name=name, header=header, attr=start, vis=vis, kw=kwi, hdr_end=j, end=e, body=body)
        i = e + 1


def expanded(repo):
    """the source of crate victor after macro expansion by rustc, from the current tree"""
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    build = os.path.join(here, 'build')
    os.makedirs(build, exist_ok=True)
    out = os.path.join(build, 'expanded.rs')
    e = dict(os.environ, RUSTC_BOOTSTRAP='1', CARGO_TARGET_DIR=os.path.join(build, 'expand_target'))
    r = subprocess.run(['bash', '-c', '. /opt/vp/env.sh; cd "$1" && exec cargo rustc --offline --quiet -p victor --lib -- -Zunpretty=expanded -Awarnings',
                        'x', repo], capture_output=True, text=True, env=e)
    if r.returncode != 0:
        raise Lost('macro expansion failed: ' + r.stderr[-800:])
    with open(out, 'w', encoding='utf-8') as f:
        f.write(r.stdout)
    return out


class File:
    cache = {}

    def __init__(self, path):
        self.path = path
        with open(path, encoding='utf-8') as f:
            self.src = f.read()
        self.toks = tokens(self.src)

    @classmethod
    def get(cls, path):
        if path not in cls.cache and path.endswith('@expanded'):
            cls.cache[path] = cls(expanded(path[:-len('@expanded')]))
        if path not in cls.cache:
            if not os.path.exists(path):
                raise Lost('no file %s' % path)
            cls.cache[path] = cls(path)
        return cls.cache[path]

    def find(self, path):
        """PATH segments separated by ' :: '"""
        lo, hi = 0, len(self.toks)
        segs = [s.strip() for s in path.split(' :: ')]
        cands = [(lo, hi)]
        for k, seg in enumerate(segs):
            last = k == len(segs) - 1
            nxt = []
            for lo, hi in cands:
                for it in items(self.src, self.toks, lo, hi):
                    if self.matches(it, seg):
                        nxt.append(it)
            if not nxt:
                raise Lost('%s: nothing matches %r of %r' % (self.path, seg, path))
            if last:
                if len(nxt) != 1:
                    raise Lost('%s: %d items match %r' % (self.path, len(nxt), path))
                return nxt[0]
            cands = [(it['body'][0] + 1, it['body'][1]) for it in nxt if it['body']]

    @staticmethod
    def matches(it, seg):
        ns = norm(seg)
        if it['kind'] == 'impl':
            return it['header'] == ns
        if ' ' not in ns:
            return it['name'] == ns and it['kind'] in ('fn', 'struct', 'enum', 'const', 'static', 'type', 'trait')
        return it['kind'] + ' ' + it['name'] == ns


def strip_attrs_comments(text):
    """drop comments and attributes; keep everything else as written"""
    toks = tokens(text)
    out = []
    pos = 0
    i = 0
    # positions to delete
    dels = []
    while i < len(toks):
        if toks[i][1] == '#' and i + 1 < len(toks) and toks[i + 1][1] in ('[', '!') and toks[i][0] == 'op':
            j = i + 1
            if toks[j][1] == '!':
                j += 1
            if toks[j][1] == '[':
                e = match_close(toks, j)
                dels.append((toks[i][2], toks[e][3]))
                i = e + 1
                continue
        i += 1
    # comments: gaps between tokens
    res = []
    prev = 0
    spans = [(t[2], t[3]) for t in toks]
    k = 0
    for (s, e) in spans:
        gap = text[prev:s]
        res.append(clean_gap(gap))
        if not any(a <= s and e <= b for a, b in dels):
            res.append(text[s:e])
        prev = e
    res.append(clean_gap(text[prev:]))
    return ''.join(res)


def clean_gap(gap):
    gap = re.sub(r'/\*.*\*/', ' ', gap, flags=re.S)
    gap = re.sub(r'//[^\n]*', '', gap)
    return gap


def find_loops(text):
    """offsets of loop bodies in source order: list of (kw, kw_pos, open_pos, close_pos)"""
    toks = tokens(text)
    out = []
    for i, t in enumerate(toks):
        if t[0] == 'id' and t[1] in ('loop', 'while', 'for'):
            if t[1] == 'for' and i + 1 < len(toks) and toks[i + 1][1] == '<':
                continue
            j = i + 1
            while toks[j][1] != '{':
                if toks[j][1] in ('(', '['):
                    j = match_close(toks, j) + 1
                else:
                    j += 1
            e = match_close(toks, j)
            out.append((t[1], t[2], toks[j][2], toks[e][2]))
    return out


class Fn:
    def __init__(self, unit, file, path, opts):
        self.unit, self.file, self.path = unit, file, path
        self.secs = []      # (kind, arg, text)
        self.external = opts


def parse_template(text):
    """yield ('text', str) | ('item', file, path, secs) | ('fn', file, path, secs)"""
    out = []
    buf = []
    cur = None
    sec = None
    glob = []
    for line in text.split('\n'):
        m = re.match(r'\s*//@@\s*(\w+)\s*(.*)$', line)
        if m:
            kind, arg = m.group(1), m.group(2).strip()
            if kind in ('fn', 'item'):
                if cur is not None:
                    raise ValueError('nested directive: ' + line)
                out.append(('text', '\n'.join(buf))); buf = []
                f, p = arg.split('|', 1)
                cur = (kind, f.strip(), p.strip(), [])
                sec = None
            elif kind in ('gsub', 'gclear') and cur is None:
                glob = [] if kind == 'gclear' else glob + [['sub', 'OPT ' + arg, []]]
            elif kind == 'end':
                cur[3].extend(glob)
                out.append(cur); cur = None; sec = None
            else:
                if cur is None:
                    raise ValueError('directive outside of fn: ' + line)
                sec = [kind, arg, []]
                cur[3].append(sec)
        elif cur is not None:
            if sec is None:
                if line.strip():
                    raise ValueError('text outside of a section: ' + line)
            else:
                sec[2].append(line)
        else:
            buf.append(line)
    if cur is not None:
        raise ValueError('unterminated ' + str(cur[:3]))
    out.append(('text', '\n'.join(buf)))
    return out


def parse_rx(arg):
    opt = False
    if arg.startswith('OPT'):
        opt = True
        arg = arg[3:].strip()
    cnt = None
    m = re.match(r'#(\d+)\s+', arg)
    if m:
        cnt = int(m.group(1)); arg = arg[m.end():]
    if not arg.startswith('/'):
        raise ValueError('regex expected: ' + arg)
    k = arg.rfind('/')
    m = re.match(r'/(.*)/\s*=>(.*)$', arg, re.S)
    if m:
        return opt, cnt, m.group(1), m.group(2).strip()
    return opt, cnt, arg[1:k], None


def sub1(rx, repl, text, opt, what, count=0):
    new, n = re.subn(rx, repl, text, count=count, flags=re.S)
    if n == 0 and not opt:
        raise Lost('rewrite /%s/ matches nothing in %s' % (rx, what))
    return new, n


def tail_start(body):
    """where the tail expression of a function body starts: behind the last statement"""
    tk = tokens(body)
    k = 0
    start = 0      # token index of the start of the current statement
    while k < len(tk):
        t = tk[k][1]
        if t in OPEN:
            e = match_close(tk, k)
            if t == '{' and tk[start][1] in ('if', 'while', 'for', 'loop', 'match', 'unsafe', '{') and e + 1 < len(tk) and tk[e + 1][1] not in ('else', '.', '?') and tk[e + 1][0] not in ('op',):
                # a block statement with more behind it
                k = e + 1
                start = k
                continue
            k = e + 1
            continue
        if t == ';':
            start = k + 1
        k += 1
    return tk[start][2] if start < len(tk) else None


ESC = {'n': 10, 'r': 13, 't': 9, '\\': 92, '0': 0, "'": 39, '"': 34}


def literal_bytes(t):
    """the bytes of a (byte) string literal of Rust without its quotes"""
    out = []
    i = 0
    while i < len(t):
        c = t[i]
        if c != '\\':
            out += list(c.encode('utf-8')); i += 1
        elif t[i + 1] == 'x':
            out.append(int(t[i + 2:i + 4], 16)); i += 4
        elif t[i + 1] == '\n':
            i += 2
            while i < len(t) and t[i] in ' \t\n\r':
                i += 1
        elif t[i + 1] in ESC:
            out.append(ESC[t[i + 1]]); i += 2
        else:
            raise Lost('string literal with \\' + t[i + 1])
    return out


LITERALS = {}


def literal_name(b):
    n = ''.join(chr(x) if chr(x).isalnum() and x < 128 else '_%02x' % x for x in b)
    if len(n) > 40:
        n = n[:30] + '_' + hashlib.sha256(bytes(b)).hexdigest()[:10]
    n = n or 'empty'
    LITERALS[n] = list(b)
    return n


def literal_definitions():
    o = []
    for n, b in sorted(LITERALS.items()):
        a = ', '.join('%du8' % x for x in b)
        q = 'seq![%s]' % a if b else 'Seq::<u8>::empty()'
        o.append('#[verifier::opaque] pub open spec fn s_%s() -> Seq<u8> { %s }' % (n, q))
        o.append('pub fn b_%s() -> (r: &\'static [u8; %d]) ensures r@ == s_%s() { proof { reveal(s_%s); } let r: &\'static [u8; %d] = &[%s]; assert(r@ =~= s_%s()); r }'
                 % (n, len(b), n, n, len(b), a, n))
    return '\n'.join(o)


def jump_table(text, enum, what, spec):
    """the `match *self` that a table of closures stands for; enum: text of the enum"""
    tk = tokens(text)
    if not any(t[1] == 'JUMP_TABLE' for t in tk):
        return '', text      # a match already
    et = tokens(enum)
    o = next(k for k in range(len(et)) if et[k][1] == '{')
    ename = et[o - 1][1]
    variants = []
    k = o + 1
    end = match_close(et, o)
    while k < end:
        name = et[k][1]
        k += 1
        ty = ''
        if et[k][1] == '(':
            c = match_close(et, k)
            ty = norm(enum[et[k][3]:et[c][2]])
            k = c + 1
        variants.append((name, ty))
        if k < end and et[k][1] == ',':
            k += 1
    body = next(k for k in range(len(tk)) if tk[k][1] == '{')
    arms = []
    k = body
    while k < len(tk):
        if tk[k][1] == '|' and tk[k + 1][1] == 'self_':
            e = k + 1
            while tk[e][1] != '|':
                e += 1
            args = [t[1] for t in tk[k + 2:e] if t[0] == 'id']
            e += 1
            if tk[e][1] != '{':
                raise Lost(what + ': closure of the jump table')
            c = match_close(tk, e)
            m = re.match(r'(?:\s*let _ = &\w+;)*\s*let ptr: \*const \w+ = self_;\s*(?:#\[repr\(C\)\]\s*)?struct Variant\(u8,?(.*?)\);\s*let ptr = ptr as \*const Variant;\s*let &Variant\(_,?(.*?)\)\s*=\s*unsafe \{ &\*ptr \};(.*)$', text[tk[e][3]:tk[c][2]], re.S)
            if not m:
                raise Lost(what + ': closure of the jump table')
            arms.append((norm(m.group(1)), [x.strip() for x in m.group(2).split(',') if x.strip()], m.group(3), args))
            k = c + 1
        else:
            k += 1
    if len(arms) != len(variants):
        raise Lost('%s: %d closures for %d variants' % (what, len(arms), len(variants)))
    sig = text[:tk[body][2]]
    params = re.findall(r'(\w+)\s*:(?!:)', sig[sig.index('(') :])
    o = []
    fns = []
    method = text[tk[next(k for k in range(len(tk)) if tk[k][1] == 'fn') + 1][2]:sig.index('(')].strip()
    plist = sig[sig.index('(') + 1:sig.rindex(')')]
    plist = re.sub(r'^\s*&self\s*,?', '', plist).strip()
    for (name, ty), (aty, fields, block, args) in zip(variants, arms):
        if ty.replace(' ', '').rstrip(',') != aty.replace(' ', '').rstrip(','):
            raise Lost('%s: fields of %s' % (what, name))
        if args != params:
            raise Lost('%s: parameters %s' % (what, args))
        tys = split_commas(ty.replace(' :: ', '::'))
        if len(tys) != len(fields):
            raise Lost('%s: fields of %s' % (what, name))
        pat = name + ('(' + ', '.join(fields) + ')' if fields else '')
        val = ename + '::' + name + ('(' + ', '.join('*' + f.replace('ref ', '') for f in fields) + ')' if fields else '')
        names = [f.replace('ref ', '').strip() for f in fields]
        o.append('%s::%s => %s::%s_%s(%s),' % (ename, pat, ename, method, name, ', '.join(names + params)))
        fns.append('fn %s_%s(%s)\n%s\n%s' % (method, name, ', '.join(['%s: &%s' % x for x in zip(names, tys)] + [plist]), spec.replace('$self', val), block.strip()))
    return '\n'.join(fns) + '\n', sig + '{ match *self {\n' + '\n'.join(o) + '\n} }'


def prop_map(text, what, spec):
    """the entries of a static map from names to property data as functions, and the lookup as comparisons"""
    spec, _, start = spec.partition('START\n')
    tk = tokens(text)
    at = [k for k in range(len(tk)) if tk[k][1] == 'entries']
    if len(at) != 1:
        raise Lost(what + ': entries of the map')
    k = at[0]
    while tk[k][1] != '[':
        k += 1
    end = match_close(tk, k)
    k += 1
    fns, chain, names = [], [], []
    while k < end:
        if tk[k][1] == ',':
            k += 1
            continue
        if tk[k][1] != '(' or tk[k + 1][0] != 'str':
            raise Lost(what + ': entry of the map')
        c = match_close(tk, k)
        key = tk[k + 1][1]
        a = k + 2
        while tk[a][1] != 'longhands':
            a += 1
        while tk[a][1] != '[':
            a += 1
        b = match_close(tk, a)
        longhands = text[tk[a][2]:tk[b][3]]
        while tk[b][1] != 'parse':
            b += 1
        if [t[1] for t in tk[b + 1:b + 7]] != [':', '|', 'parser', ',', 'declarations', '|'] or tk[b + 7][1] != '{':
            raise Lost(what + ': closure of ' + key)
        body = text[tk[b + 7][2]:tk[match_close(tk, b + 7)][3]]
        n = len(names)
        names.append(key)
        fns.append('fn entry_%d<\'i, \'t>(parser: &mut Parser<\'i, \'t>, declarations: &mut Vec<LonghandDeclaration>) -> (r: Result<PerPhase<bool>, PropertyParseError<\'i>>)\n%s\n%s'
                   % (n, spec.replace('$name', key + '@'), '{\n' + start + body[1:]))
        chain.append('if same(&lowercase, %s) { return Some(PropertyData { longhands: &%s, parse: Entry::E%d }); }' % (key, longhands, n))
        k = c + 1
    enum = 'pub enum Entry { %s }' % ', '.join('E%d' % n for n in range(len(names)))
    nm = ('pub open spec fn entry_name(e: Entry) -> Seq<char> { match e { %s } }' % ', '.join('Entry::E%d => %s@' % x for x in enumerate(names)))
    call = ('fn entry_parse<\'i, \'t>(e: &Entry, parser: &mut Parser<\'i, \'t>, declarations: &mut Vec<LonghandDeclaration>) -> (r: Result<PerPhase<bool>, PropertyParseError<\'i>>)\n%s\n{ match e { %s } }'
            % (spec.replace('$name', 'entry_name(*e)'), ', '.join('Entry::E%d => entry_%d(parser, declarations)' % (n, n) for n in range(len(names)))))
    o = next(k for k in range(len(tk)) if tk[k][1] == '{')
    # what is done with the map: the key in lower case
    if not re.search(r'lowercase\s*\.and_then\(\|s\| MAP\.get\(s\)\)\s*\}\s*\}\s*$', text) or not re.search(r'_internal__to_lowercase\(buffer, input\)', text):
        raise Lost(what + ': lookup in the map')
    return '\n'.join([enum, nm] + fns + [call]) + '\n', text[:tk[o][2]] + '{ let lowercase = lower(input);\n' + '\n'.join(chain) + '\nNone }'


def mac_to_match(m, what):
    """match_ignore_ascii_case!(x, arms) as a match on the lower case of x"""
    whole = m.group(0)
    tk = tokens(whole)
    o = next(k for k in range(len(tk)) if tk[k][1] == '(')
    c = match_close(tk, o)
    if tk[o + 2][1] != ',':
        raise Lost(what + ': match_ignore_ascii_case')
    return 'match &*%s.to_ascii_lowercase() {%s}' % (m.group(1), whole[tk[o + 2][3]:tk[c][2]]) + whole[tk[c][3]:]


def str_match(text, what):
    """matches on strings as comparisons; innermost last"""
    start = 0
    while True:
        tk = tokens(text)
        hit = None
        for k in range(len(tk)):
            if tk[k][1] != 'match' or tk[k][2] < start:
                continue
            o = k + 1
            while tk[o][1] != '{':
                o = match_close(tk, o) + 1 if tk[o][1] in '([' else o + 1
            if tk[o + 1][0] == 'str':
                hit = (k, o)
                break
        if hit is None:
            return text
        k, o = hit
        c = match_close(tk, o)
        arms = []
        j = o + 1
        while j < c:
            p = j
            while tk[j][1] != '=>':
                j += 1
            pats = tk[p:j]
            j += 1
            b = j
            if tk[j][1] == '{':
                j = match_close(tk, j) + 1
            else:
                while j < c and tk[j][1] != ',':
                    j = match_close(tk, j) + 1 if tk[j][1] in '([{' else j + 1
            arms.append((pats, text[tk[b][2]:tk[j - 1][3]]))
            if j < c and tk[j][1] == ',':
                j += 1
        out = '{ let s_ = %s; ' % text[tk[k + 1][2]:tk[o][2]].strip()
        for n, (pats, b) in enumerate(arms):
            if len(pats) == 1 and pats[0][1] == '_' and n == len(arms) - 1:
                out += '{ %s }' % b
                break
            if any(q[0] != ('str' if m % 2 == 0 else 'op') or (m % 2 and q[1] != '|') for m, q in enumerate(pats)):
                raise Lost(what + ': pattern of a match on a string')
            out += 'if %s { %s } else ' % (' || '.join('same(&s_, %s)' % q[1] for q in pats[::2]), b)
        else:
            raise Lost(what + ': match on a string without a last arm')
        text = text[:tk[k][2]] + out + ' }' + text[tk[c][3]:]


def split_commas(t):
    out = []
    cur = ''
    d = 0
    for c in t:
        if c in '(<[':
            d += 1
        elif c in ')>]':
            d -= 1
        if c == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def byte_arrays(text, inline):
    res = []
    prev = 0
    for k, t, s, e in tokens(text):
        if k == 'str':
            b = literal_bytes(t[t.index('"') + 1:-1])
            a = 'b_%s()' % literal_name(b) if not inline else '&[' + ', '.join('%du8' % x for x in b) + ']' if b else '&[0u8; 0]'
            res.append(text[prev:s])
            res.append('(' + a + ')' if t[0] == 'b' else 'lit(' + a + ')')
            prev = e
    return ''.join(res) + text[prev:]


def bodiless(t, mark):
    """lemmas without their proofs"""
    return re.sub(r'^((?:#\[verifier::spinoff_prover\]\s*)?)((?:pub )?(?:broadcast )?proof fn )', lambda m: '#[verifier::external_body] %s%s' % (mark, m.group(2)), t, flags=re.M)


LOCK = threading.Lock()


def expand(template_path, repo, canary=None):
    with LOCK:
        return expand_(template_path, repo, canary)


def expand_(template_path, repo, canary):
    """-> (verus source, info).  canary: index of extracted fn whose body starts with assert(false)"""
    with open(template_path) as f:
        tpl = f.read()
    # includes
    def inc(m):
        with open(os.path.join(os.path.dirname(template_path), m.group(1))) as f:
            t = f.read()
        if m.group(2):
            # proved in another unit: contracts without bodies
            t = re.sub(r'^(//@@ fn .*)$', r'\1\n//@@ assumed', t, flags=re.M)
            t = bodiless(t, '/*proved in another unit*/ ')
            t = re.sub(r'^(//@@ include \S+)\s*$', r'\1 assumed', t, flags=re.M)
        return t
    while re.search(r'^//@@ include', tpl, flags=re.M):
        tpl = re.sub(r'^//@@ include (\S+)( assumed)?\s*$', inc, tpl, flags=re.M)
    if canary:
        # lemmas are not what the reachability run is about
        tpl = bodiless(tpl, '')
    LITERALS.clear()
    # BYTES("…") in specifications: the sequence of these bytes
    tpl = re.sub(r'BYTES\("((?:\\.|[^"\\])*)"\)', lambda m: 's_%s()' % literal_name(literal_bytes(m.group(1))), tpl)
    tpl = re.sub(r'REVEAL\("((?:\\.|[^"\\])*)"\)', lambda m: 'reveal(s_%s)' % literal_name(literal_bytes(m.group(1))), tpl)
    tpl = re.sub(r'^//@@ literals\s*$', '/*LITERALS*/', tpl, flags=re.M)
    parts = parse_template(tpl)
    out = []
    info = dict(functions=[], items=[], rewrites=[], regions=[], canaries=[])
    line = 1

    def emit(s):
        nonlocal line
        out.append(s)
        line += s.count('\n')

    idx = 0
    for p in parts:
        if p[0] == 'text':
            emit(p[1] + '\n')
            continue
        kind, fn_file, path, secs = p
        F = File.get(os.path.join(repo, fn_file))
        it = F.find(path)
        whole = fn_file + ' | ' + path
        text = F.src[F.toks[it['vis']][2]:F.toks[it['end']][3]]
        orig = text
        text = strip_attrs_comments(text)
        text = re.sub(r'\bpub\s*\(\s*(crate|super|self|in\s+[\w:]+)\s*\)', 'pub', text)
        if kind == 'item':
            for s in secs:
                if s[0] == 'sub':
                    opt, cnt, rx, repl = parse_rx(s[1])
                    text, n = sub1(rx, repl, text, opt, whole, cnt or 0)
                    if n:
                        info['rewrites'].append('%s: /%s/ => %s' % (whole, rx, repl))
                elif s[0] == 'bytes':
                    text = byte_arrays(text, s[1] == 'inline')
                    info['rewrites'].append('%s: string literals as arrays of their bytes' % whole)
                elif s[0] == 'attr':
                    text = s[1] + '\n' + '\n'.join(s[2]) + text
                else:
                    raise ValueError(s[0])
            l0 = line
            emit('// --- from ' + whole + '\n' + text + '\n')
            info['items'].append(whole)
            continue
        assumed = any(s[0] == 'assumed' for s in secs)
        if assumed:
            keep = ('ret', 'spec', 'attr', 'hdr')
            secs = [s for s in secs if s[0] in keep] + [(s[0], s[1] if s[1].startswith('OPT') else 'OPT ' + s[1], s[2]) for s in secs if s[0] == 'sub']
        # function
        fi = dict(name=whole, loops=0, src=orig)
        helpers = ''
        for s in secs:
            if s[0] == 'jumptable':
                E = F.find(s[1])
                enum = strip_attrs_comments(F.src[F.toks[E['vis']][2]:F.toks[E['end']][3]])
                helpers, text = jump_table(text, enum, whole, '\n'.join(s[2]))
                info['rewrites'].append('%s: the n-th closure of JUMP_TABLE as a function, called for the n-th variant (dispatch on the tag)' % whole)
            if s[0] == 'propmap':
                helpers, text = prop_map(text, whole, '\n'.join(s[2]))
                info['rewrites'].append('%s: the closure of the n-th entry of MAP as a function; the lookup of a name as comparisons with the keys' % whole)
            if s[0] == 'strmatch':
                text = re.sub(r'match_ignore_ascii_case!\(\s*(\w+)\s*,(.*)', lambda m: mac_to_match(m, whole), text, flags=re.S)
                text = str_match(text, whole)
                info['rewrites'].append('%s: match on string literals as comparisons' % whole)
            if s[0] in ('closure', 'dropclosure'):
                name, _, hdr = s[1].partition('=>')
                name = name.strip()
                tk = tokens(text)
                hit = [k for k in range(len(tk) - 4) if tk[k][1] == 'let' and name in (tk[k + 1][1], tk[k + 2][1]) and any(tk[k + 2 + d][1] == '=' and tk[k + 3 + d][1] == '|' for d in (0, 1))]
                if len(hit) != 1:
                    raise Lost('%s: no closure %s' % (whole, name))
                b = next(k for k in range(hit[0], len(tk)) if tk[k][1] == '|')
                e = next(k for k in range(b + 1, len(tk)) if tk[k][1] == '|')
                if tk[e + 1][1] != '{':
                    raise Lost('%s: the body of the closure %s' % (whole, name))
                c = match_close(tk, e + 1)
                if tk[c + 1][1] != ';':
                    raise Lost('%s: the closure %s' % (whole, name))
                if s[0] == 'closure':
                    text = hdr.strip().replace('$params', text[tk[b][3]:tk[e][2]].strip()) + ' ' + text[tk[e + 1][2]:tk[c][3]]
                    info['rewrites'].append('%s: the closure %s as a function of what it captures' % (whole, name))
                else:
                    text = text[:tk[hit[0]][2]] + text[tk[c + 1][3]:]
            if s[0] == 'hoist':
                tk = tokens(text)
                o = next(k for k in range(len(tk)) if tk[k][1] == '{')
                hit = [n for n in items(text, tk, o + 1, match_close(tk, o)) if File.matches(n, s[1])]
                if len(hit) != 1:
                    raise Lost('%s: no nested item %s' % (whole, s[1]))
                text = text[:tk[hit[0]['attr']][2]] + text[tk[hit[0]['end']][3]:]
            if s[0] == 'sub':
                opt, cnt, rx, repl = parse_rx(s[1])
                if s[2] and any(x.strip() for x in s[2]):
                    repl = repl + '\n' + '\n'.join(s[2])
                text, n = sub1(rx, repl.replace('\\n', '\n'), text, opt, whole, cnt or 0)
                if helpers:
                    helpers, n2 = sub1(rx, repl.replace('\\n', '\n'), helpers, True, whole, cnt or 0)
                    n = n or n2
                if n:
                    info['rewrites'].append('%s: /%s/ => %s' % (whole, rx, repl))
        for s in [s for s in secs if s[0] == 'bytes']:
            text = byte_arrays(text, s[1] == 'inline')
            info['rewrites'].append('%s: string literals as arrays of their bytes' % whole)
        toks = tokens(text)
        # signature / body
        j = 0
        while toks[j][1] != 'fn':
            j += 1
        while toks[j][1] != '{':
            if toks[j][1] in ('(', '['):
                j = match_close(toks, j) + 1
            else:
                j += 1
        ob = toks[j][2]
        cb = toks[match_close(toks, j)][2]
        sig, body = text[:ob].rstrip(), text[ob + 1:cb]
        if assumed:
            body = ' unimplemented!() '
        loops = find_loops(body)
        fi['loops'] = len(loops)
        fi['expected_loops'] = None
        ins = []   # (pos, text)
        spec = ''
        ret = None
        pre = ''
        nloops_spec = set()
        attrs = ''
        for s in secs:
            body_txt = '\n'.join(s[2])
            if s[0] == 'ret':
                ret = s[1]
            elif s[0] == 'attr':
                attrs = s[1] + '\n'
            elif s[0] == 'spec':
                spec = body_txt
            elif s[0] == 'hdr':
                sig = s[1] + ' ' + body_txt
                ret = None
                info['rewrites'].append('%s: signature replaced by: %s' % (whole, (s[1] + body_txt).strip()))
            elif s[0] == 'start':
                pre = body_txt
            elif s[0] == 'nloops':
                fi['expected_loops'] = int(s[1])
                if len(loops) != int(s[1]):
                    raise Lost('%s: %d loops, expected %s' % (whole, len(loops), s[1]))
            elif s[0] in ('loop', 'loopstart', 'loopend', 'forloop', 'beforeloop', 'afterloop'):
                n = int(s[1].split()[0])
                nloops_spec.add(n)
                if n > len(loops):
                    raise Lost('%s: no loop %d' % (whole, n))
                kw, kp, op_, cp = loops[n - 1]
                if s[0] == 'loop':
                    ins.append((op_, 0, '\n' + body_txt + '\n'))
                elif s[0] == 'loopstart':
                    ins.append((op_ + 1, 1, '\n' + body_txt + '\n'))
                elif s[0] == 'loopend':
                    ins.append((cp, 0, ';\n' + body_txt + '\n'))
                elif s[0] == 'beforeloop':
                    ins.append((kp, 0, '\n' + body_txt + '\n'))
                elif s[0] == 'afterloop':
                    ins.append((cp + 1, 2, ';\n' + body_txt + '\n'))
            elif s[0] in ('before', 'after'):
                opt, cnt, rx, _ = parse_rx(s[1])
                ms = list(re.finditer(rx, body, flags=re.S))
                if not ms:
                    if opt:
                        continue
                    raise Lost('%s: hint anchor /%s/ not found' % (whole, rx))
                if cnt is None and len(ms) > 1:
                    if opt:
                        continue
                    raise Lost('%s: hint anchor /%s/ is ambiguous' % (whole, rx))
                m = ms[(cnt or 1) - 1] if len(ms) >= (cnt or 1) else None
                if m is None:
                    raise Lost('%s: hint anchor /%s/ #%s not found' % (whole, rx, cnt))
                ins.append((m.start() if s[0] == 'before' else m.end(), 1, '\n' + body_txt + '\n'))
            elif s[0] == 'tail':
                k = tail_start(body)
                if k is None:
                    raise Lost('%s: no tail expression' % whole)
                ins.append((k, 3, 'let %s = ' % s[1]))
                ins.append((len(body.rstrip()), 0, ';\n' + body_txt + '\n' + s[1] + '\n'))
            elif s[0] in ('sub', 'bytes', 'closure', 'dropclosure', 'hoist', 'jumptable', 'propmap', 'strmatch'):
                pass
            else:
                raise ValueError('unknown section ' + s[0])
        if len(loops) > 0 and nloops_spec and max(nloops_spec) < len(loops):
            raise Lost('%s: %d loops, only %d have invariants' % (whole, len(loops), max(nloops_spec)))
        if len(loops) > 0 and not nloops_spec and fi['expected_loops'] is None:
            raise Lost('%s: a loop without an invariant' % whole)
        if canary == 'loops':
            for kw, kp, op_, cp in loops:
                if not any(a < o2 < cp and o2 > op_ for _, a, o2, _ in [l for l in loops if l[2] != op_] if o2 > op_ and o2 < cp):
                    # a claim that reaching one loop does not make vacuous for the loops inside of it
                    ins.append((op_ + 1, 2, ' assert(vstd::pervasive::arbitrary::<int>() == %d); /*canary*/ ' % op_))
        for pos, pr, t in sorted(ins, key=lambda x: (x[0], x[1]), reverse=True):
            body = body[:pos] + t + body[pos:]
        if ret:
            # `-> T [where …]` : name the result
            tk = tokens(sig)
            depth = 0
            arrow = None
            k = 0
            while k < len(tk):
                if tk[k][1] in ('(', '['):
                    k = match_close(tk, k)
                elif tk[k][1] == '->':
                    arrow = k
                    break
                k += 1
            if arrow is None:
                raise Lost('%s: no return type' % whole)
            k = arrow + 1
            while k < len(tk) and tk[k][1] != 'where':
                k += 1
            a, b = tk[arrow + 1][2], tk[k - 1][3]
            sig = sig[:a] + '(' + ret + ': ' + sig[a:b] + ')' + sig[b:]
        if assumed:
            attrs += '#[verifier::external_body] /*proved in another unit*/ '
        can = ''
        if (canary == 'all' or (canary is not None and canary == idx)) and 'external_body' not in attrs:
            can = ' assert(false); /*canary*/'
        l0 = line
        emit('// --- from ' + whole + '\n' + helpers + attrs + sig + '\n' + spec + '\n{\n' + pre + can + '\n' + body + '\n}\n')
        for k, l in enumerate(out[-1].split('\n')):
            if '/*canary*/' in l:
                info['canaries'].append((l0 + k, whole))
        info['regions'].append((l0, line, whole))
        if not assumed:
            info['functions'].append(fi)
        idx += 1
    return ''.join(out).replace('/*LITERALS*/', literal_definitions()), info


if __name__ == '__main__':
    repo = os.environ.get('REPO', '/repo')
    s, info = expand(sys.argv[1], repo)
    sys.stdout.write(s)
    print(info['rewrites'], file=sys.stderr)
