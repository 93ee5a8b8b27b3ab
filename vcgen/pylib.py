"""Model of pyo3 and the Python interpreter.

Python objects are opaque. What the interpreter answers to an observation (import, attribute lookup, type query, call of an
inspection function) is an unconstrained function of the operands of that observation and of the state of the interpreter;
only assignments to attributes change the state. That observations do not change what is observed later on is an assumption."""
from .terms import *
from .mir import Unsupported
from .exec import iter_, State, WORLD, W0, PYW
from .lib import lib, LIB, val, toseq, unS, unOk, branch, ap

OBJ = D('PyObj')
ERR = D('Err')


def RES(s):
    return D('Result', s, ERR)


def world(c):
    return c.env.get(WORLD, W0)


def clean(c):
    if world(c) is not W0:
        raise Unsupported('%s after a change of the interpreter state' % c.name)


def txt(v):
    """string value of an argument that becomes a Python string"""
    if v.s == STR:
        return v
    if v.op == 'call' and v.a[0] == 'py_strobj':
        return v.a[1]
    if v.s == OBJ:
        return Call('py_str', [v], STR)
    raise Unsupported('Python string from %s' % (v.s,))


def obj(v):
    """Python object made from a Rust value"""
    if v.op == 'iter':
        v = v.a[0]
    if v.s == OBJ:
        return v
    if v.s == STR:
        return Call('py_strobj', [v], OBJ)
    if v.s[0] == 'Seq':
        n = v.s[1][1] if v.s[1][0] == 'D' else v.s[1][0]
        return Call('py_from_%s' % n, [v], OBJ)
    raise Unsupported('Python object from %s' % (v.s,))


def objs(c, v):
    v = c.eng.autoderef(c.env, v)
    if v.op == 'tuple':
        return seqlit([obj(c.eng.autoderef(c.env, x)) for x in v.a], OBJ)
    if v.s[0] == 'Tup':
        return seqlit([obj(TProj(v, i)) for i in range(len(v.s[1]))], OBJ)
    raise Unsupported('argument tuple %s' % (v.s,))


def targ(c):
    """name of the last type argument"""
    a = [x for x in c.j.get('args', []) if isinstance(x, int)]
    t = c.eng.mir.types[c.eng.mir.strip(a[-1])]
    n = t.get('name') or t.get('s')
    return str_(n.split('::')[-1])


@lib("pyo3::Python::<'_>::with_gil")
def _(c):
    return ap(c, c.args[0], [EMPTY_TUP], c.env, c.pc)


@lib("pyo3::Bound::<'py, T>::py", 'pyo3::prepare_freethreaded_python')
def _(c):
    return EMPTY_TUP


for _n in ("<pyo3::Bound<'py, T> as std::ops::Deref>::deref", "<pyo3::Bound<'_, T> as std::clone::Clone>::clone", "<pyo3::Bound<'_, T> as pyo3::ToPyObject>::to_object"):
    LIB[_n] = lambda c: val(c, 0)


@lib('pyo3::sync::Interned::new')
def _(c):
    return c.args[0]


@lib('pyo3::sync::Interned::get')
def _(c):
    return Call('py_strobj', [txt(val(c, 0))], OBJ)


@lib("pyo3::Python::<'py>::import_bound")
def _(c):
    clean(c)
    return Call('py_import', [txt(val(c, 1))], RES(OBJ))


@lib('pyo3::prelude::PyAnyMethods::getattr', 'pyo3::PyAny::getattr')
def _(c):
    return Call('py_getattr', [world(c), val(c, 0), txt(val(c, 1))], RES(OBJ))


@lib('pyo3::prelude::PyAnyMethods::setattr')
def _(c):
    w = world(c)
    a = [w, val(c, 0), txt(val(c, 1)), obj(val(c, 2))]
    c.env[WORLD] = Call('py_setattr_w', a, PYW)
    return Call('py_setattr', a, RES(UNIT))


@lib('pyo3::prelude::PyAnyMethods::hasattr')
def _(c):
    clean(c)
    return Call('py_hasattr', [val(c, 0), txt(val(c, 1))], RES(BOOL))


@lib('pyo3::PyAny::get_item')
def _(c):
    clean(c)
    return Call('py_getitem', [val(c, 0), obj(val(c, 1))], RES(OBJ))


@lib('pyo3::prelude::PyAnyMethods::call_method0')
def _(c):
    clean(c)
    return Call('py_call_method', [val(c, 0), txt(val(c, 1)), seqlit([], OBJ)], RES(OBJ))


@lib('pyo3::prelude::PyAnyMethods::call_method1')
def _(c):
    clean(c)
    return Call('py_call_method', [val(c, 0), txt(val(c, 1)), objs(c, c.args[2])], RES(OBJ))


@lib('pyo3::prelude::PyAnyMethods::call1')
def _(c):
    clean(c)
    return Call('py_call', [val(c, 0), objs(c, c.args[1])], RES(OBJ))


@lib('pyo3::prelude::PyAnyMethods::dir')
def _(c):
    clean(c)
    return Call('py_dir', [val(c, 0)], OBJ)


@lib('pyo3::prelude::PyListMethods::iter', 'pyo3::prelude::PyTupleMethods::iter')
def _(c):
    return iter_(Call('py_items', [val(c, 0)], SEQ(OBJ)))


@lib('pyo3::prelude::PyAnyMethods::iter')
def _(c):
    clean(c)
    return Call('py_iter', [val(c, 0)], RES(SEQ(RES(OBJ))))


@lib('pyo3::prelude::PyAnyMethods::is')
def _(c):
    return Call('py_is', [val(c, 0), val(c, 1)], BOOL)


@lib('pyo3::prelude::PyAnyMethods::is_none')
def _(c):
    return Call('py_is_none', [val(c, 0)], BOOL)


@lib('pyo3::prelude::PyAnyMethods::is_truthy')
def _(c):
    clean(c)
    return Call('py_truthy', [val(c, 0)], RES(BOOL))


@lib('pyo3::prelude::PyAnyMethods::get_type')
def _(c):
    return Call('py_type', [val(c, 0)], OBJ)


@lib("pyo3::Python::<'py>::get_type_bound")
def _(c):
    return Call('py_class', [targ(c)], OBJ)


@lib('pyo3::prelude::PyAnyMethods::is_instance_of')
def _(c):
    return Call('py_is_instance', [val(c, 0), targ(c)], BOOL)


@lib('pyo3::prelude::PyTypeMethods::is_subclass_of')
def _(c):
    return Call('py_is_subclass', [val(c, 0), targ(c)], RES(BOOL))


@lib('pyo3::prelude::PyAnyMethods::downcast', 'pyo3::prelude::PyAnyMethods::downcast_into')
def _(c):
    v = val(c, 0)
    ok = Call('py_is_instance', [v, targ(c)], BOOL)
    return Ite(ok, mk('ctor', ('Ok', v), RES(OBJ)), mk('ctor', ('Err', Call('py_downcast_err', [v], ERR)), RES(OBJ)))


@lib('pyo3::prelude::PyAnyMethods::extract')
def _(c):
    clean(c)
    s = c.ds[2][0]
    if s == OBJ:
        return mk('ctor', ('Ok', val(c, 0)), RES(OBJ))
    n = s[1] if s[0] == 'D' else s[0]
    r = Call('py_extract_%s' % n, [val(c, 0)], RES(s))
    if s == INT:
        c.eng.fact(c.pc, Imp(Is('Ok', r), And(Le(I(0), unOk(r)), Le(unOk(r), I(255)))))
    return r


@lib('pyo3::prelude::PyTypeMethods::qualname')
def _(c):
    return Call('py_qualname', [val(c, 0)], RES(STR))


@lib('pyo3::prelude::PyModuleMethods::name')
def _(c):
    return Call('py_module_name', [val(c, 0)], RES(STR))


@lib('pyo3::prelude::PyModuleMethods::index')
def _(c):
    clean(c)
    return Call('py_module_index', [val(c, 0)], RES(OBJ))


@lib('pyo3::prelude::PyStringMethods::to_str')
def _(c):
    return Call('py_string', [val(c, 0)], RES(STR))


@lib('pyo3::prelude::PyStringMethods::to_string_lossy')
def _(c):
    return Call('py_str', [val(c, 0)], STR)


@lib("pyo3::Python::<'py>::eval_bound")
def _(c):
    if c.args[3].op == 'ctor' and c.args[3].a[0] == 'None':
        env = seqlit([], OBJ)
    else:
        env = seqlit([unS(val(c, 3))], OBJ)
    return Call('py_eval', [txt(val(c, 1)), env], RES(OBJ))


@lib('pyo3::types::IntoPyDict::into_py_dict_bound')
def _(c):
    s = toseq(c, val(c, 0))
    return Call('py_dict', [s], OBJ)


@lib('pyo3::prelude::PyModule::from_code_bound')
def _(c):
    clean(c)
    return Call('py_from_code', [txt(val(c, i)) for i in (1, 2, 3)], RES(OBJ))
