"""Front end: clang-18 typed AST (JSON) of the library sources in /repo -> slim AST.

Everything the verifier sees is produced by clang from the current working tree on
every run; nothing is transcribed by hand.  What is dropped: function bodies from
system headers are only kept for inlining, declarations without bodies, attributes
other than `packed`, source ranges other than one offset per node.
"""
import json, os, subprocess, re, pickle, sys
from concurrent.futures import ProcessPoolExecutor

REPO = os.environ.get('VERIF_REPO', '/repo')
# the library translation units (the Makefile's OBJ list); tests are not part of it
LIB = ['pub.c', 'time.c', 'sub.c', 'circular_buffer.c', 'rmc_connection.c', 'rmc_protocol.c',
       'rmc_sub_packet.c', 'rmc_pub_packet.c', 'rmc_sub_context.c', 'rmc_pub_context.c',
       'rmc_sub_read.c', 'rmc_pub_read.c', 'rmc_sub_write.c', 'rmc_pub_write.c',
       'rmc_pub_timeout.c', 'rmc_sub_timeout.c']

CFLAGS = ['-D_GNU_SOURCE', '-I' + REPO]


class Unsupported(Exception):
    pass


class N:
    __slots__ = ('k', 't', 'a', 'c', 'off')

    def __init__(self, k, t, a, c, off):
        self.k, self.t, self.a, self.c, self.off = k, t, a, c, off

    def __getstate__(self):
        return (self.k, self.t, self.a, self.c, self.off)

    def __setstate__(self, s):
        self.k, self.t, self.a, self.c, self.off = s

    def __repr__(self):
        return '%s<%s>' % (self.k, self.a)


KEEP = ('name', 'opcode', 'value', 'castKind', 'isArrow', 'isPostfix', 'hasElse', 'init', 'storageClass',
        'tagUsed', 'hasInit', 'hasVar', 'declId', 'targetLabelDeclId', 'inline')


def _off(n):
    r = n.get('range', {}).get('begin', {})
    if 'offset' in r:
        return r['offset']
    for k in ('expansionLoc', 'spellingLoc'):
        if k in r and 'offset' in r[k]:
            return r[k]['offset']
    return None


def slim(n):
    t = n.get('type')
    ty = None
    if t:
        ty = t.get('desugaredQualType') or t.get('qualType')
    a = {k: n[k] for k in KEEP if k in n}
    if 'id' in n and n['kind'] in ('VarDecl', 'ParmVarDecl', 'FunctionDecl', 'LabelDecl'):
        a['id'] = n['id']
    if n.get('kind') == 'LabelStmt':
        a['declId'] = n.get('declId')
    rd = n.get('referencedDecl')
    if rd:
        a['ref'] = (rd.get('kind'), rd.get('name'), rd.get('id'),
                    (rd.get('type') or {}).get('desugaredQualType') or (rd.get('type') or {}).get('qualType'))
    if 'argType' in n:
        a['argType'] = n['argType'].get('desugaredQualType') or n['argType']['qualType']
    if 'field' in n:
        a['field'] = n['field'].get('name')
    if 'array_filler' in n:
        a['filler'] = True
    if n.get('kind') == 'ForStmt':
        # init, condition variable, condition, increment, body; absent parts are kept in place
        return N('ForStmt', ty, a, [slim(c) if c.get('kind') else None for c in n['inner']], _off(n))
    return N(n.get('kind'), ty, a, [slim(c) for c in n.get('inner', []) if c.get('kind')] if 'inner' in n else
             ([slim(c) for c in n['array_filler'] if c.get('kind')] if 'array_filler' in n else []), _off(n))


def parse_one(fname):
    path = os.path.join(REPO, fname)
    p = subprocess.run(['clang-18', '-Xclang', '-ast-dump=json', '-fsyntax-only', '-w'] + CFLAGS + [path],
                       capture_output=True)
    if p.returncode != 0:
        raise Unsupported('clang failed on %s: %s' % (fname, p.stderr.decode()[:400]))
    d = json.loads(p.stdout)
    funcs, records, typedefs, enums, gvars = {}, {}, {}, {}, {}
    anon = {}

    def rec(c):
        nm = c.get('name')
        fields = []
        packed = False
        for x in c.get('inner', []):
            if x.get('kind') == 'FieldDecl':
                t = x['type'].get('desugaredQualType') or x['type']['qualType']
                fields.append((x.get('name', ''), t))
            elif x.get('kind') == 'PackedAttr':
                packed = True
            elif x.get('kind') == 'RecordDecl':
                rec(x)
        if c.get('completeDefinition') and nm:
            records[nm] = (c.get('tagUsed'), fields, packed)

    def typedef(c):
        t = c['type'].get('qualType')
        if t != c['name']:
            typedefs[c['name']] = t

    for c in d['inner']:
        k = c.get('kind')
        if k == 'RecordDecl':
            rec(c)
        elif k == 'TypedefDecl':
            typedef(c)
        elif k == 'EnumDecl':
            v = -1
            for x in c.get('inner', []):
                if x.get('kind') == 'EnumConstantDecl':
                    v += 1
                    for y in x.get('inner', []):
                        if y.get('kind') == 'ConstantExpr' and 'value' in y:
                            v = int(y['value'])
                    enums[x['name']] = v
        elif k == 'FunctionDecl':
            inner = c.get('inner', [])
            if any(x.get('kind') == 'CompoundStmt' for x in inner):
                funcs[c['name']] = (slim(c), fname)
        elif k == 'VarDecl':
            gvars[c['name']] = slim(c)
    return fname, funcs, records, typedefs, enums, gvars


class Fn:
    def __init__(self, name, node, fname):
        self.name, self.file = name, fname
        self.static = node.a.get('storageClass') == 'static'
        self.params = [x for x in node.c if x.k == 'ParmVarDecl']
        self.body = [x for x in node.c if x.k == 'CompoundStmt'][0]
        self.ret = node.t.split('(')[0].strip()
        self.key = (fname + ':' + name) if self.static else name
        self.off = node.off


class Program:
    def __init__(self):
        self.fns = {}      # (file,name) -> Fn
        self.glob = {}     # name -> Fn  (non static)
        self.records, self.typedefs, self.enums, self.gvars = {}, {}, {}, {}
        self.errors = []
        self._tc = {}
        self._lines = {}

    def load(self, files=None):
        files = files or LIB
        # pick up library sources added next to the known ones (a file split off by a refactoring)
        known = set(LIB)
        extra = [f for f in sorted(os.listdir(REPO)) if f.endswith('.c') and f not in known
                 and not re.search(r'test|wireshark|rmc_log\.c', f)]
        files = list(files) + extra
        with ProcessPoolExecutor(8) as ex:
            futs = [(f, ex.submit(parse_one, f)) for f in files if os.path.exists(os.path.join(REPO, f))]
            for f, fu in futs:
                try:
                    fname, funcs, rec, td, en, gv = fu.result()
                except Unsupported as e:
                    self.errors.append(str(e))
                    continue
                for n, (node, fn) in funcs.items():
                    F = Fn(n, node, fn)
                    self.fns[(fname, n)] = F
                    if not F.static:
                        self.glob[n] = F
                self.records.update(rec)
                self.typedefs.update(td)
                self.enums.update(en)
                self.gvars.update(gv)
        return self

    def find(self, name, fromfile=None):
        if fromfile and (fromfile, name) in self.fns:
            return self.fns[(fromfile, name)]
        if name in self.glob:
            return self.glob[name]
        return None

    def find_any(self, key):
        """key: 'name' or 'file.c:name'; a static function that moved is found by bare name."""
        if ':' in key:
            f, n = key.split(':')
            if (f, n) in self.fns:
                return self.fns[(f, n)]
            c = [F for (ff, nn), F in self.fns.items() if nn == n and ff not in ('pub.c', 'sub.c')]
            return c[0] if len(c) == 1 else None
        return self.glob.get(key) or next((F for (ff, nn), F in self.fns.items() if nn == key), None)

    def line(self, fn, off):
        if off is None:
            return 0
        if fn not in self._lines:
            try:
                self._lines[fn] = open(os.path.join(REPO, fn), 'rb').read()
            except OSError:
                self._lines[fn] = b''
        return self._lines[fn].count(b'\n', 0, off) + 1

    # ---- types -------------------------------------------------------------
    BASE = {'void': ('void',), 'char': ('int', 8, True), 'signed char': ('int', 8, True),
            'unsigned char': ('int', 8, False), 'short': ('int', 16, True), 'unsigned short': ('int', 16, False),
            'int': ('int', 32, True), 'unsigned int': ('int', 32, False), 'unsigned': ('int', 32, False),
            'long': ('int', 64, True), 'unsigned long': ('int', 64, False), 'long long': ('int', 64, True),
            'unsigned long long': ('int', 64, False), '_Bool': ('int', 8, False), 'bool': ('int', 8, False)}

    def ty(self, s):
        if s in self._tc:
            return self._tc[s]
        r = self._ty(s)
        self._tc[s] = r
        return r

    def _ty(self, s):
        s = s.strip()
        if s == 'user_data_t':
            return ('ud',)
        if s in ('__SOCKADDR_ARG', '__CONST_SOCKADDR_ARG'):
            return ('ptr', ('opaque', 'sockaddr'))     # transparent union of pointers
        if '(*' in s and not s.startswith('__typeof'):
            return ('ptr', ('func',))
        if s.endswith(']'):
            i = s.rindex('[')
            # leftmost dimension is outermost; only 1-d arrays occur
            n = s[i + 1:-1]
            return ('arr', self.ty(s[:i]), int(n) if n.isdigit() else None)
        s = re.sub(r'\b(const|volatile|restrict|__restrict)\b', '', s).strip()
        if s.endswith('*'):
            return ('ptr', self.ty(s[:-1]))
        s = s.strip()
        if s in self.BASE:
            return self.BASE[s]
        if s.startswith('struct ') or s.startswith('union '):
            k, n = s.split(' ', 1)
            if '(unnamed' in n or '(anonymous' in n:
                return ('opaque', n)
            return ('struct', n)
        if s.startswith('enum '):
            return ('int', 32, False)
        if s in self.typedefs:
            return self.ty(self.typedefs[s])
        if '(' in s:
            return ('func',)
        if s in self.records:
            return ('struct', s)
        raise Unsupported('type ' + s)

    def fields(self, tag):
        if tag not in self.records:
            raise Unsupported('record ' + tag)
        return [(n, self.ty(t)) for n, t in self.records[tag][1]]

    def fieldty(self, tag, f):
        for n, t in self.fields(tag):
            if n == f:
                return t
        raise Unsupported('field %s.%s' % (tag, f))

    def packed(self, tag):
        return tag in self.records and self.records[tag][2]

    def sizeof(self, t):
        return self.layout(t)[0]

    def layout(self, t):
        k = t[0]
        if k == 'int':
            return t[1] // 8, t[1] // 8
        if k in ('ptr', 'ud'):
            return 8, 8
        if k == 'arr':
            s, a = self.layout(t[1])
            return s * (t[2] or 0), a
        if k == 'void':
            return 1, 1
        if k == 'struct':
            kind, _, packed = self.records[t[1]]
            off, al = 0, 1
            for n, ft in self.fields(t[1]):
                s, a = self.layout(ft)
                if packed:
                    a = 1
                if kind == 'union':
                    off = max(off, s)
                else:
                    off = (off + a - 1) // a * a + s
                al = max(al, a)
            return (off + al - 1) // al * al, al
        raise Unsupported('sizeof ' + str(t))

    def offset(self, tag, f):
        kind, _, packed = self.records[tag]
        off = 0
        for n, ft in self.fields(tag):
            s, a = self.layout(ft)
            if packed:
                a = 1
            off = (off + a - 1) // a * a
            if n == f:
                return off
            off += s
        raise Unsupported('offset')


if __name__ == '__main__':
    import time
    t = time.time()
    P = Program().load()
    print(len(P.fns), time.time() - t, P.errors)
    print(P.sizeof(('struct', 'rmc_connection')), P.ty('pub_packet_node_t *'), P.fields('circ_buf'))
    print(P.sizeof(P.ty('packet_header_t')), P.sizeof(P.ty('cmd_control_message_t')), P.sizeof(P.ty('struct sockaddr_in')))
