"""Access to the MIR dump (JSON) written by mirdump from /repo's current source."""
import json
from . import terms as tm
from .terms import *

STRLIKE = {'std::string::String'}
SEQLIKE = {'std::vec::Vec'}
TRANSPARENT = {'std::boxed::Box', 'std::rc::Rc', 'std::borrow::Cow', 'std::mem::ManuallyDrop',
               'std::sync::Arc', 'std::mem::MaybeUninit'}
STD_ENUMS = {
    'std::option::Option': ('Option', [('None', 0), ('Some', 1)]),
    'std::result::Result': ('Result', [('Ok', 1), ('Err', 1)]),
    'std::ops::ControlFlow': ('ControlFlow', [('Continue', 1), ('Break', 1)]),
    'std::cmp::Ordering': ('Ordering', [('Less', 0), ('Equal', 0), ('Greater', 0)]),
    'std::borrow::Cow': None,
}
ERRS = ('syn::Error', 'pyo3::PyErr', 'std::io::Error', 'utils::error::PyBindgenError', 'std::fmt::Error',
        'pyo3::DowncastError', 'pyo3::DowncastIntoError', 'pyo3::PyDowncastError')
OPAQUE = {
    'pyo3::Bound': 'PyObj', 'pyo3::Py': 'PyObj', 'pyo3::PyAny': 'PyObj', 'pyo3::Python': None,
    'proc_macro2::Ident': 'SynIdent', 'syn::Path': 'SynPath', 'proc_macro2::Span': 'Span',
    'std::path::PathBuf': 'PathBuf', 'proc_macro2::TokenTree': 'Tok',
}


class Unsupported(Exception):
    pass


class Mir:
    def __init__(self, path):
        j = json.load(open(path))
        self.types = j['types']
        self.adts = j['adts']
        self.fns = {}
        self.dups = set()
        for f in j['fns']:
            if f['name'] in self.fns:
                self.dups.add(f['name'])
            self.fns[f['name']] = f
        self._sorts = {}
        self.dt = {}          # verus name -> (kind, [(variant, [(field name, sort, boxed)])])
        self.dtname = {}      # rust path -> verus name
        self._building = set()
        used = set()
        for n, a in sorted(self.adts.items()):
            if not a['local']:
                continue
            short = n.split('::')[-1]
            v = short
            k = 2
            while v in used or v in ('Option', 'Result', 'Ordering', 'ControlFlow', 'Seq', 'Map', 'Set', 'Tok'):
                v = '%s%d' % (short, k)
                k += 1
            used.add(v)
            self.dtname[n] = v
            if a['kind'] == 'struct':
                tm._single[v] = True

    def sort(self, ti):
        if ti is None:
            return META
        s = self._sorts.get(ti)
        if s is None:
            s = self._sort(self.types[ti])
            self._sorts[ti] = s
        return s

    def _sort(self, t):
        k = t['k']
        if k == 'bool':
            return BOOL
        if k == 'char':
            return CHAR
        if k in ('int', 'uint'):
            return INT
        if k == 'str':
            return STR
        if k == 'ref':
            if t['mut']:
                return META
            return self.sort(t['ty'])
        if k in ('slice', 'array'):
            e = self.sort(t['ty'])
            return SEQ(e)
        if k == 'tuple':
            return TUP(*[self.sort(x) for x in t['args']])
        if k == 'param':
            return D('Param')       # type parameters: one opaque sort
        if k == 'never':
            return UNIT
        if k == 'adt':
            n = t['name']
            a = [x for x in t['args'] if isinstance(x, int)]
            if n in STRLIKE:
                return STR
            if n in SEQLIKE:
                return SEQ(self.sort(a[0]))
            if n in TRANSPARENT:
                return self.sort(a[0])
            if n == 'std::option::Option':
                return D('Option', self.sort(a[0]))
            if n == 'std::result::Result':
                return D('Result', self.sort(a[0]), self.sort(a[1]))
            if n == 'std::ops::ControlFlow':
                return D('ControlFlow', self.sort(a[0]), self.sort(a[1]))
            if n == 'std::cmp::Ordering':
                return D('Ordering')
            if n in ERRS:
                return D('Err')
            if n == 'proc_macro2::TokenStream':
                return SEQ(D('Tok'))
            if n == 'pyo3::Python':
                return UNIT
            if n == 'std::collections::HashMap':
                return ('Map', self.sort(a[0]), self.sort(a[1]))
            if n == 'std::collections::HashSet':
                return ('Set', self.sort(a[0]))
            if n in OPAQUE:
                return D(OPAQUE[n])
            if n in self.dtname:
                self.build(n)
                return D(self.dtname[n])
            return META
        return META

    def build(self, n):
        v = self.dtname[n]
        if v in self.dt or n in self._building:
            return
        self._building.add(n)
        a = self.adts[n]
        vs = []
        for va in a['variants']:
            fs = []
            for f in va['fields']:
                ft = self.types[f['ty']]
                boxed = ft['k'] == 'adt' and ft['name'] in ('std::boxed::Box',)
                fs.append((f['name'], self.sort(f['ty']), boxed))
            vs.append((va['name'], fs))
        self.dt[v] = (a['kind'], vs)

    def variant(self, adt, idx):
        if adt in STD_ENUMS and STD_ENUMS[adt]:
            return STD_ENUMS[adt][1][idx][0]
        return self.adts[adt]['variants'][idx]['name']

    def variant_by_discr(self, adt, d):
        a = self.adts[adt]
        for i, x in enumerate(a['discrs']):
            if str(x) == str(d):
                return self.variant(adt, i)
        raise Unsupported('discriminant %s of %s' % (d, adt))

    def strip(self, ti):
        """type id with refs / transparent boxes removed"""
        while True:
            t = self.types[ti]
            if t['k'] == 'ref':
                ti = t['ty']
            elif t['k'] == 'adt' and t['name'] in TRANSPARENT:
                ti = [x for x in t['args'] if isinstance(x, int)][0]
            else:
                return ti
