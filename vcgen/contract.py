"""Contracts on functions of the engine (text in the Verus specification language)."""
import re
from .terms import *


def mangle(fn):
    s = re.sub(r"<impl [^>]*> for", '', fn)
    s = re.sub(r"<impl (.*)>", r'\1', s)
    parts = re.split(r'[^A-Za-z0-9_]+', fn.replace('[', ' slice ').replace('&', ' ref '))
    drop = {'syntax', 'common', 'std', 'as', 'impl', 'for', ''}
    return '_'.join(p for p in parts if p not in drop)


class Contract:
    """fn        rust path of the function as rustc prints it
    params       names for the arguments, in order
    requires     precondition (over params)
    ret          functional specification of the returned value (over params), or None (unconstrained)
    ensures      further postconditions (over params and `result`)
    post         {param: text} final value of a `&mut` parameter (over params; `old` value is the name)
    frame        `&mut` parameters that are left unchanged
    hints        proof hints inserted into every obligation of the function (over params)
    decreases    well-founded measure for recursive functions; functions of one `group` are compared
    det          the result is a function of the arguments, about which only the postconditions are known to callers
    defs         specification functions that belong to the contract
    split        one obligation per branch of the result
    post ''      the final value of the parameter is a function of the arguments, about which only the postconditions (over
                 `new_<param>`) are known
    world        the function may change the interpreter state; the postconditions speak about the final one as `new_world`
    fnargs       {param: ((argument sorts), result sort)} for parameters that are pure functions
    invs         loop invariants, by position of the loop in the function: dict(vars, inv, dec) over params and the current values
                 of the named locals (`cur_<name>` for parameters)
    hide         {function under contract or specification function: obligations (regular expression) where its postconditions or
                 definition are needed}; they are kept from the solver elsewhere
    props        properties that rest on the function
    """

    def __init__(self, fn, params='', requires='', ret=None, ensures=(), post=None, frame=(), hints='', decreases=None,
                 group=None, props=(), inline=False, display=False, rlimit=None, uses=(), det=False, invs=None, assumed=None, defs='', split=False, fnargs=None, world=False, hide=None, spin=False):
        self.hide = hide
        self.world = world
        self.defs = defs
        self.fnargs = dict(fnargs or {})
        self.split = split
        self.det = det
        self.fn = fn
        self.params = params.split() if isinstance(params, str) else list(params)
        self.requires = requires
        self.ret = ret
        self.ensures = list(ensures)
        self.post = dict(post or {})
        self.frame = tuple(frame)
        self.hints = hints
        self.decreases = decreases
        self.group = group or fn
        self.props = tuple(props.split() if isinstance(props, str) else props)
        self.inline = inline
        self.display = display
        self.rlimit = rlimit
        self.spin = spin         # a solver process per obligation
        self.uses = uses
        self.invs = invs or []
        self.assumed = assumed
        self.id = mangle(fn)
        self.sorts = None      # filled by Driver
        self.rsort = None

    def bind(self, args):
        if len(args) != len(self.params):
            raise Exception('contract arity ' + self.fn)
        return list(args)

    def req_term(self, args):
        return Call('r_' + self.id, args, BOOL)

    def ret_term(self, args, sort):
        if self.ret is None and not self.det:
            return fresh('ret', sort)
        return Call('c_' + self.id, args, sort)

    def post_term(self, p, args, sort):
        t = self.post[p]
        if t is None:
            return fresh('post', sort)
        return Call('p_%s_%s' % (self.id, p), args, sort)

    def ens_terms(self, args, ret, posts=None):
        """posts: final values of the parameters in `post`, in order of the parameters"""
        return [Call('e%d_%s' % (i, self.id), list(args) + ([ret] if ret is not None else []) + list(posts or []), BOOL)
                for i in range(len(self.ensures))]

    def posted(self):
        return [p for p in self.params if p in self.post]

    def invtexts(self):
        return [v for v in self.invs if v]

    def dec_term(self, args):
        return Call('d_' + self.id, args, INT)

    def alltext(self):
        return ' '.join([self.requires, self.ret or '', self.hints, self.defs, self.decreases or ''] + self.ensures +
                        [x for x in self.post.values() if x] + [v['inv'] + ' ' + v['dec'] for v in self.invs if v])
