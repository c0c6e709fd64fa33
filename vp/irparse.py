"""Parser for LLVM-18 textual IR (opaque pointers), the subset clang emits for our harnesses."""
import re

TOK = re.compile(r'''
  c"(?:[^"])*" | [%@]"[^"]*" | "(?:[^"])*" | [%@][-a-zA-Z$._0-9]+ | ![-a-zA-Z0-9_.$]* | \#\d+ |
  0x[KHLMR]?[0-9A-Fa-f]+ | -?\d+\.\d+(?:e[-+]?\d+)? | -?\d+ | [a-zA-Z_][\w.]* | \.\.\. | \$[-\w.$"]+ | [\[\]{}()<>,=*:|]
''', re.X)


class IRError(Exception):
    pass


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'n', 'el', 'packed', 'name')

    def __init__(s, k, n=0, el=None, packed=False, name=None):
        s.k, s.n, s.el, s.packed, s.name = k, n, el, packed, name

    def __repr__(s):
        if s.k == 'int':
            return 'i%d' % s.n
        if s.k == 'arr':
            return '[%d x %r]' % (s.n, s.el)
        if s.k == 'vec':
            return '<%d x %r>' % (s.n, s.el)
        if s.k == 'struct':
            return '{%s}' % ', '.join(map(repr, s.el))
        if s.k == 'named':
            return s.name
        return s.k


VOID, PTR, FLOAT, DOUBLE, FP80, LABEL, META, TOKENT = [Ty(k) for k in
    ('void', 'ptr', 'float', 'double', 'x86_fp80', 'label', 'metadata', 'token')]
_simple = {'void': VOID, 'ptr': PTR, 'float': FLOAT, 'double': DOUBLE, 'x86_fp80': FP80,
           'label': LABEL, 'metadata': META, 'token': TOKENT}
_ints = {}


def INT(n):
    if n not in _ints:
        _ints[n] = Ty('int', n)
    return _ints[n]


class Opd:
    """operand: kind in reg,glob,int,fp,null,undef,zero,agg,str,expr,meta,asm"""
    __slots__ = ('k', 'v', 'ty')

    def __init__(s, k, v, ty):
        s.k, s.v, s.ty = k, v, ty

    def __repr__(s):
        return '%s:%r' % (s.k, s.v)


class Ins:
    __slots__ = ('op', 'dst', 'ty', 'a', 'x', 'line')

    def __init__(s, op, dst=None, ty=None, a=(), x=None, line=''):
        s.op, s.dst, s.ty, s.a, s.x, s.line = op, dst, ty, a, x, line

    def __repr__(s):
        return s.line


class Func:
    def __init__(s, name, ret, params):
        s.name, s.ret, s.params = name, ret, params
        s.blocks = {}
        s.order = []
        s.entry = None
        s.info = None


class Module:
    def __init__(s):
        s.types = {}
        s.globs = {}    # name -> (ty, Opd or None, const)
        s.funcs = {}
        s.decls = {}
        s.aliases = {}


PARAM_ATTRS = {'noundef', 'nonnull', 'nocapture', 'noalias', 'readonly', 'writeonly', 'readnone', 'returned',
               'signext', 'zeroext', 'inreg', 'nofree', 'nest', 'immarg', 'swiftself', 'swifterror', 'noreturn',
               'nounwind', 'dead_on_unwind', 'writable', 'allocptr', 'nofpclass', 'inrange', 'noundef,', 'range'}
PARAM_ATTRS_ARG = {'align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'byref', 'elementtype',
                   'preallocated', 'inalloca', 'allocalign', 'alignstack', 'initializes'}


class P:
    """token-stream parser over one logical line"""

    def __init__(s, text, mod):
        s.text = text
        s.t = TOK.findall(text)
        s.i = 0
        s.m = mod

    def pk(s, k=0):
        j = s.i + k
        return s.t[j] if j < len(s.t) else None

    def nx(s):
        v = s.t[s.i]
        s.i += 1
        return v

    def acc(s, *w):
        if s.pk() in w:
            s.i += 1
            return True
        return False

    def exp(s, w):
        v = s.nx()
        if v != w:
            raise IRError('expected %s got %s in %s' % (w, v, s.text))

    # -- types
    def ty(s):
        t = s.nx()
        if re.fullmatch(r'i\d+', t):
            r = INT(int(t[1:]))
        elif t in _simple:
            r = _simple[t]
            if t == 'ptr' and s.pk() == 'addrspace':
                s.nx(); s.exp('('); s.nx(); s.exp(')')
        elif t == '[':
            n = int(s.nx()); s.exp('x'); el = s.ty(); s.exp(']')
            r = Ty('arr', n, el)
        elif t == '<':
            if s.pk() == '{':
                s.nx(); r = s._struct(True); s.exp('>')
            else:
                n = int(s.nx()); s.exp('x'); el = s.ty(); s.exp('>')
                r = Ty('vec', n, el)
        elif t == '{':
            r = s._struct(False)
        elif t[0] == '%':
            r = Ty('named', name=t)
        elif t == 'opaque':
            r = Ty('opaque')
        else:
            raise IRError('type? %s in %s' % (t, s.text))
        # function type (for calls): ret (args)
        return r

    def _struct(s, packed):
        el = []
        if s.acc('}'):
            return Ty('struct', 0, el, packed)
        while True:
            el.append(s.ty())
            if s.acc('}'):
                break
            s.exp(',')
        return Ty('struct', 0, el, packed)

    def isty(s):
        t = s.pk()
        return t is not None and (re.fullmatch(r'i\d+', t) is not None or t in _simple or t in '[<{' or t[0] == '%')

    # -- operands
    def val(s, ty):
        t = s.nx()
        c = t[0]
        if c == '%':
            return Opd('reg', t, ty)
        if c == '@':
            return Opd('glob', t, ty)
        if ty.k == 'int':
            if t == 'true':
                return Opd('int', 1, ty)
            if t == 'false':
                return Opd('int', 0, ty)
            if c == '-' or c.isdigit():
                return Opd('int', int(t, 0) & ((1 << ty.n) - 1), ty)
        if ty.k in ('float', 'double', 'x86_fp80') and (c == '-' or c.isdigit()):
            return Opd('fp', t, ty)
        if t == 'null':
            return Opd('null', None, ty)
        if t in ('undef', 'poison'):
            return Opd('undef', t, ty)
        if t == 'zeroinitializer':
            return Opd('zero', None, ty)
        if t == 'none':
            return Opd('undef', t, ty)
        if c == 'c' and t[1:2] == '"':
            raw = t[2:-1]
            b = bytearray()
            i = 0
            while i < len(raw):
                if raw[i] == '\\':
                    b.append(int(raw[i + 1:i + 3], 16)); i += 3
                else:
                    b += raw[i].encode('latin-1'); i += 1
            return Opd('str', bytes(b), ty)
        if t in ('[', '{', '<'):
            close = {'[': ']', '{': '}', '<': '>'}[t]
            if t == '<' and s.pk() == '{':
                s.nx()
                el = s._aggr('}')
                s.exp('>')
                return Opd('agg', el, ty)
            return Opd('agg', s._aggr(close), ty)
        if t in ('getelementptr', 'inttoptr', 'ptrtoint', 'bitcast', 'add', 'sub', 'trunc', 'zext', 'sext', 'icmp', 'mul', 'shl', 'addrspacecast', 'xor', 'select', 'and', 'or'):
            return s.cexpr(t, ty)
        if t == 'dso_local_equivalent' or t == 'no_cfi':
            return s.val(ty)
        if t == 'asm':
            return Opd('asm', None, ty)
        if c == '!' or ty.k == 'metadata':
            # metadata operand, skip
            return Opd('meta', None, ty)
        raise IRError('value? %s (%r) in %s' % (t, ty, s.text))

    def _aggr(s, close):
        el = []
        if s.acc(close):
            return el
        while True:
            t = s.ty()
            el.append(s.val(t))
            if s.acc(close):
                break
            s.exp(',')
        return el

    def cexpr(s, op, ty):
        if op == 'getelementptr':
            while s.pk() in ('inbounds', 'nuw', 'nusw', 'inrange'):
                s.nx()
                if s.pk() == '(' and s.t[s.i - 1] == 'inrange':
                    while s.nx() != ')':
                        pass
            s.exp('(')
            base = s.ty()
            s.exp(',')
            args = []
            while True:
                s.acc('inrange')
                t = s.ty()
                args.append(s.val(t))
                if s.acc(')'):
                    break
                s.exp(',')
            return Opd('expr', ('gep', base, args), ty)
        if op in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
            s.exp('(')
            t = s.ty()
            v = s.val(t)
            s.exp('to')
            t2 = s.ty()
            s.exp(')')
            return Opd('expr', (op, v, t2), ty)
        while s.pk() in ('nuw', 'nsw', 'exact'):
            s.nx()
        pred = None
        if op == 'icmp':
            pred = s.nx()
        s.exp('(')
        args = []
        while True:
            t = s.ty()
            args.append(s.val(t))
            if s.acc(')'):
                break
            s.exp(',')
        return Opd('expr', (op, pred, args), ty)

    def tv(s):
        t = s.ty()
        s.attrs()
        return s.val(t)

    def attrs(s):
        while True:
            t = s.pk()
            if t in PARAM_ATTRS:
                s.nx()
                if s.pk() == '(':
                    s.paren()
            elif t in PARAM_ATTRS_ARG:
                s.nx()
                if s.pk() == '(':
                    s.paren()
                elif re.fullmatch(r'\d+', s.pk() or ''):
                    s.nx()
            elif t and t[0] == '"':
                s.nx()
                if s.acc('='):
                    s.nx()
            else:
                return

    def paren(s):
        d = 0
        while True:
            t = s.nx()
            if t == '(':
                d += 1
            elif t == ')':
                d -= 1
                if d == 0:
                    return


FLAGS = {'nuw', 'nsw', 'exact', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'disjoint', 'nneg',
         'inbounds', 'volatile', 'nusw'}
BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
       'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CAST = {'trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'fptosi', 'fptoui', 'sitofp', 'uitofp',
        'fpext', 'fptrunc', 'addrspacecast'}


def parse_ins(line, m):
    p = P(line, m)
    dst = None
    if p.pk(1) == '=':
        dst = p.nx()
        p.nx()
    op = p.nx()
    while op in ('tail', 'musttail', 'notail'):
        op = p.nx()
    flags = set()

    def fl():
        while p.pk() in FLAGS:
            flags.add(p.nx())
    if op in BIN:
        fl()
        t = p.ty()
        a = p.val(t); p.exp(','); b = p.val(t)
        return Ins(op, dst, t, (a, b), flags, line)
    if op in ('icmp', 'fcmp'):
        fl()
        pred = p.nx()
        t = p.ty()
        a = p.val(t); p.exp(','); b = p.val(t)
        return Ins(op, dst, t, (a, b), pred, line)
    if op in CAST:
        fl()
        a = p.tv()
        p.exp('to')
        return Ins(op, dst, p.ty(), (a,), flags, line)
    if op == 'fneg' or op == 'freeze':
        fl()
        a = p.tv()
        return Ins(op, dst, a.ty, (a,), None, line)
    if op == 'select':
        fl()
        c = p.tv(); p.exp(','); a = p.tv(); p.exp(','); b = p.tv()
        return Ins(op, dst, a.ty, (c, a, b), None, line)
    if op == 'phi':
        fl()
        t = p.ty()
        inc = []
        while p.acc('['):
            v = p.val(t); p.exp(','); l = p.nx(); p.exp(']')
            inc.append((v, l))
            if not p.acc(','):
                break
        return Ins(op, dst, t, (), dict((l, v) for v, l in inc), line)
    if op == 'br':
        if p.acc('label'):
            return Ins('jmp', None, None, (), p.nx(), line)
        p.exp('i1')
        c = p.val(INT(1)); p.exp(','); p.exp('label'); a = p.nx(); p.exp(','); p.exp('label'); b = p.nx()
        return Ins('br', None, None, (c,), (a, b), line)
    if op == 'switch':
        v = p.tv(); p.exp(','); p.exp('label'); d = p.nx(); p.exp('[')
        cases = []
        while not p.acc(']'):
            cv = p.tv(); p.exp(','); p.exp('label')
            cases.append((cv.v, p.nx()))
        return Ins('switch', None, None, (v,), (d, cases), line)
    if op == 'ret':
        if p.acc('void'):
            return Ins('ret', None, VOID, (), None, line)
        a = p.tv()
        return Ins('ret', None, a.ty, (a,), None, line)
    if op == 'unreachable':
        return Ins('unreachable', line=line)
    if op == 'alloca':
        p.acc('inalloca')
        t = p.ty()
        n = None
        while p.acc(','):
            if p.pk() == 'align':
                p.nx(); p.nx()
            elif p.isty():
                n = p.tv()
            else:
                break
        return Ins('alloca', dst, t, (n,) if n else (), None, line)
    if op == 'load':
        fl()
        atom = p.acc('atomic')
        fl()
        t = p.ty(); p.exp(',')
        a = p.tv()
        return Ins('load', dst, t, (a,), None, line)
    if op == 'store':
        fl()
        p.acc('atomic')
        fl()
        v = p.tv(); p.exp(','); a = p.tv()
        return Ins('store', None, v.ty, (v, a), None, line)
    if op == 'getelementptr':
        fl()
        t = p.ty(); p.exp(',')
        a = [p.tv()]
        while p.acc(','):
            if not p.isty():
                break
            a.append(p.tv())
        return Ins('gep', dst, t, tuple(a), None, line)
    if op in ('extractvalue',):
        a = p.tv()
        idx = []
        while p.acc(','):
            if p.pk()[0] == '!':
                break
            idx.append(int(p.nx()))
        return Ins(op, dst, a.ty, (a,), idx, line)
    if op == 'insertvalue':
        a = p.tv(); p.exp(','); b = p.tv()
        idx = []
        while p.acc(','):
            if p.pk()[0] == '!':
                break
            idx.append(int(p.nx()))
        return Ins(op, dst, a.ty, (a, b), idx, line)
    if op == 'extractelement':
        a = p.tv(); p.exp(','); b = p.tv()
        return Ins(op, dst, a.ty.el, (a, b), None, line)
    if op == 'insertelement':
        a = p.tv(); p.exp(','); b = p.tv(); p.exp(','); c = p.tv()
        return Ins(op, dst, a.ty, (a, b, c), None, line)
    if op == 'shufflevector':
        a = p.tv(); p.exp(','); b = p.tv(); p.exp(','); c = p.tv()
        return Ins(op, dst, Ty('vec', c.ty.n, a.ty.el), (a, b, c), None, line)
    if op in ('call', 'invoke'):
        fl()
        while True:
            if p.pk() in ('fastcc', 'coldcc', 'ccc', 'x86_fastcallcc') or p.pk() in FLAGS:
                p.nx()
            elif p.pk() in PARAM_ATTRS or p.pk() in PARAM_ATTRS_ARG or (p.pk() and p.pk()[0] == '"'):
                before = p.i
                p.attrs()
                if p.i == before:
                    break
            else:
                break
        rt = p.ty()
        if p.pk() == '(':      # explicit function type
            p.paren()
        if p.pk() == 'asm':
            return Ins('asm', dst, rt, (), None, line)
        callee = p.val(PTR)
        p.exp('(')
        args = []
        if not p.acc(')'):
            while True:
                if p.pk() == 'metadata':
                    # skip the metadata argument
                    d = 0
                    p.nx()
                    while True:
                        if d == 0 and p.pk() in (',', ')'):
                            break
                        t = p.nx()
                        if t in '([{':
                            d += 1
                        elif t in ')]}':
                            d -= 1
                    args.append(Opd('meta', None, META))
                else:
                    args.append(p.tv())
                if p.acc(')'):
                    break
                p.exp(',')
        x = {'callee': callee}
        if op == 'invoke':
            while p.pk() != 'to':
                p.nx()
            p.nx(); p.exp('label'); x['normal'] = p.nx(); p.exp('unwind'); p.exp('label'); x['unwind'] = p.nx()
        return Ins(op, dst, rt, tuple(args), x, line)
    if op == 'landingpad':
        t = p.ty()
        cl = []
        while p.pk() in ('cleanup', 'catch', 'filter'):
            k = p.nx()
            if k == 'cleanup':
                cl.append(('cleanup', None))
            else:
                cl.append((k, p.tv()))
        return Ins(op, dst, t, (), cl, line)
    if op == 'resume':
        a = p.tv()
        return Ins(op, None, None, (a,), None, line)
    if op in ('fence',):
        return Ins('nop', line=line)
    if op in ('atomicrmw', 'cmpxchg'):
        raise IRError('unsupported ' + line)
    raise IRError('instruction? ' + line)


def parse_module(text):
    m = Module()
    lines = text.split('\n')
    i = 0
    n = len(lines)
    while i < n:
        ln = lines[i]
        i += 1
        if not ln or ln[0] in ';!':
            continue
        if ln[0] == '%':
            mm = re.match(r'(%\S+|%"[^"]*") = type (.*)$', ln)
            if mm:
                p = P(mm.group(2), m)
                m.types[mm.group(1)] = p.ty()
            continue
        if ln[0] == '@':
            parse_global(ln, m)
            continue
        if ln.startswith('declare'):
            mm = re.search(r'(@"[^"]*"|@[-\w$.]+)\s*\(', ln)
            if mm:
                m.decls[mm.group(1)] = ln
            continue
        if ln.startswith('define'):
            i = parse_func(ln, lines, i, m)
            continue
    return m


def parse_global(ln, m):
    mm = re.match(r'(@"[^"]*"|@[-\w$.]+) = (.*)$', ln)
    name, rest = mm.group(1), mm.group(2)
    am = re.match(r'(?:[\w() ]*\s)?alias\s', rest)
    if am and 'alias' in rest.split('"')[0]:
        g = re.findall(r'@"[^"]*"|@[-\w$.]+', rest)
        m.aliases[name] = g[-1]
        return
    mm = re.match(r'(?:(?!global |constant ).)*?(global|constant) (.*)$', rest)
    if not mm:
        return
    const = mm.group(1) == 'constant'
    p = P(mm.group(2), m)
    t = p.ty()
    init = None
    ext = re.search(r'\b(external|extern_weak)\b', rest[:mm.start(1)])
    if not ext:
        try:
            init = p.val(t)
        except (IRError, IndexError):
            init = Opd('undef', 'unparsed', t)
    m.globs[name] = (t, init, const)


def parse_func(hdr, lines, i, m):
    mm = re.search(r'(@"[^"]*"|@[-\w$.]+)\s*\(', hdr)
    name = mm.group(1)
    p = P(hdr[mm.end() - 1:], m)
    # return type: last type before name
    pre = hdr[:mm.start()].split()
    params = []
    p.exp('(')
    if not p.acc(')'):
        while True:
            if p.acc('...'):
                p.exp(')')
                break
            t = p.ty()
            p.attrs()
            nm = None
            if p.pk() and p.pk()[0] == '%':
                nm = p.nx()
            params.append((t, nm))
            if p.acc(')'):
                break
            p.exp(',')
    f = Func(name, None, [])
    # unnamed params are numbered
    k = 0
    for t, nm in params:
        if nm is None:
            nm = '%%%d' % k
        if re.fullmatch(r'%\d+', nm):
            k = int(nm[1:]) + 1
        f.params.append((t, nm))
    cur = None
    first = True
    body = []
    n = len(lines)
    while i < n:
        ln = lines[i]
        i += 1
        if ln.startswith('}'):
            break
        if not ln.strip() or ln.lstrip().startswith(';'):
            continue
        body.append(ln)
    # join logical lines
    log = []
    j = 0
    while j < len(body):
        ln = body[j]
        j += 1
        st = ln.strip()
        if not ln.startswith(' '):
            log.append(('L', re.match(r'("[^"]*"|[-\w$.]+):', ln).group(1)))
            continue
        if re.match(r'(to label|catch |cleanup|filter )', st) and log and log[-1][0] == 'I':
            log[-1] = ('I', log[-1][1] + ' ' + st)
            continue
        if st.startswith('switch ') and not st.rstrip().endswith(']') and ']' not in st:
            while ']' not in body[j]:
                st += ' ' + body[j].strip(); j += 1
            st += ' ' + body[j].strip(); j += 1
        log.append(('I', st))
    for kind, tx in log:
        if kind == 'L':
            cur = '%' + tx
            f.blocks[cur] = []
            f.order.append(cur)
            continue
        if cur is None:
            cur = '%%%d' % k
            f.blocks[cur] = []
            f.order.append(cur)
        f.blocks[cur].append(tx)   # parsed lazily
    f.entry = f.order[0] if f.order else None
    f.raw = True
    m.funcs[name] = f
    return i


def materialize(f, m):
    if getattr(f, 'raw', False):
        for b in f.order:
            f.blocks[b] = [parse_ins(tx, m) for tx in f.blocks[b]]
        f.raw = False
        analyze(f)
    return f


def succs(ins):
    if ins.op == 'jmp':
        return [ins.x]
    if ins.op == 'br':
        return list(ins.x)
    if ins.op == 'switch':
        return [ins.x[0]] + [l for _, l in ins.x[1]]
    if ins.op == 'invoke':
        return [ins.x['normal'], ins.x['unwind']]
    return []


def analyze(f):
    """immediate post-dominators over blocks that can reach a return; trap-only blocks."""
    S = {}
    P_ = {b: [] for b in f.order}
    rets = []
    for b in f.order:
        t = f.blocks[b][-1]
        S[b] = succs(t)
        if t.op == 'invoke':
            S[b] = [t.x['normal']]   # exceptional edges do not count for post-dominance
        if t.op == 'ret':
            rets.append(b)
    for b in f.order:
        for s in S[b]:
            P_[s].append(b)
    live = set(rets)
    wl = list(rets)
    while wl:
        b = wl.pop()
        for p in P_[b]:
            if p not in live:
                live.add(p)
                wl.append(p)
    # postdominators, bitset data-flow
    idx = {b: i for i, b in enumerate(f.order)}
    full = (1 << len(f.order)) - 1
    pd = {}
    for b in live:
        pd[b] = (1 << idx[b]) if b in rets else full
    changed = True
    while changed:
        changed = False
        for b in reversed(f.order):
            if b not in live or b in rets:
                continue
            v = full
            for s in S[b]:
                if s in live:
                    v &= pd[s]
            v |= 1 << idx[b]
            if v != pd[b]:
                pd[b] = v
                changed = True
    ip = {}
    for b in live:
        cand = pd[b] & ~(1 << idx[b])
        # the immediate one is the candidate whose own pd set equals cand
        r = None
        for c in live:
            if (cand >> idx[c]) & 1 and pd[c] == cand:
                r = c
                break
        ip[b] = r
    f.ipdom = ip
    f.live = live
    f.phis = {}
    for b in f.order:
        k = 0
        for ins in f.blocks[b]:
            if ins.op != 'phi':
                break
            k += 1
        f.phis[b] = k
