"""
Contracts of the constructors (options), of typedload.load/dump and of tname.

The constructors establish the invariants of the caches (they are empty) and give every option its documented
default, or the value that was given.
"""
import typedload
import typedload.helpers
from .base import *
from .load_kinds import need

LOAD_OPTS = {
    'basiccast': (True, ('C08',)), 'failonextra': (False, ('C06',)), 'raiseconditionerrors': (True, ('C14',)), 'dictequivalence': (True, ('C05',)),
    'mangle_key': ('name', ('C07',)), 'uniondebugconflict': (False, ('C04',)), 'pep563': (False, ('C15',)), 'frefs': ('empty dict', ('C15',)),
    'basictypes': ({int, bool, float, str, type(None)}, ('C01', 'C08')), 'handlers': (None, ('C14',)), 'strconstructed': (None, ('C20',)),
}
DUMP_OPTS = {
    'hidedefault': (True, ('C11',)), 'isodates': (False, ('C20',)), 'mangle_key': ('name', ('C07',)), 'raiseconditionerrors': (True, ('C14',)),
    'basictypes': ({int, bool, float, str, type(None)}, ('C09',)), 'handlers': (None, ('C14',)), 'strconstructed': (None, ('C20',)),
}
LOAD_CACHES = ['_indexcache', '_objfieldscache', '_unionload_discriminatorcache']
DUMP_CACHES = ['_handlerscache', '_dataclasscache']


def v_options(cls, opts, caches, n_none):
    def run(E):
        what = cls.__name__
        names = sorted(opts)
        c = E.choose(len(names) + 3)
        if c < len(names):
            given = [names[c]]
        else:
            given = [[], names, ['an_option_of_a_custom_handler']][c - len(names)]
        kw = {q: SV(z3.Const('given_' + q, V)) for q in given}
        if E.choose(2) == 0:
            kind, x = run_function(E, PyC(cls), [], kw)
        else:
            x = E.alloc('inst', {'#cls': cls})
            kind, _ = run_function(E, E.class_attr(cls, '__init__'), [x], kw)
        E.oblige('%s(): accepts any option' % what, kind == 'normal', ('C02', 'C14') if cls is dataloader.Loader else ('C09', 'C14'))
        for q in given:
            E.oblige('%s(): the option is what it is given' % what, E.is_f(E.force(E.getattr(x, q)), kw[q]), opts.get(q, (0, ('C14',)))[1])
        for q in names:
            if q in given:
                continue
            d, tags = opts[q]
            v = E.force(E.getattr(x, q))
            if d != 'empty dict' and isinstance(d, (bool, str)):
                E.oblige('%s(): default of %s' % (what, q), E.is_f(v, PyC(d)) if not isinstance(d, str) else E.eq_f(v, PyC(d)), tags)
            elif isinstance(d, str):
                E.oblige('%s(): a new loader knows no names' % what, isinstance(v, Ref) and E.obj(v).owned and E.class_of(v) is dict and E.layers_has(E.obj(v).d['layers'], E.fresh('anykey', K)) is False, tags + ('C13',))
            elif isinstance(d, set):
                mem = E.mem_fn(v)[0]
                need(mem, 'default of ' + q)
                t = E.fresh('anytype')
                E.oblige('%s(): default of %s' % (what, q), tob(mem(key(t))) == z3.Or(*[key(t) == key(E.const(b)) for b in d]), tags)
            if q in ('basictypes', 'strconstructed', 'handlers'):
                E.oblige('%s(): its %s are its own' % (what, q), isinstance(v, Ref) and E.obj(v).owned, tags + ('C13',))
        for q in caches:
            v = E.force(E.getattr(x, q))
            E.oblige('%s(): the caches start empty, and are not shared' % what,
                     isinstance(v, Ref) and E.obj(v).owned and E.class_of(v) is dict and E.layers_has(E.obj(v).d['layers'], E.fresh('anykey', K)) is False, ('C13',))
        return 'normal'
    return run


def v_quick(f, cls, method, tags):
    """typedload.load, typedload.dump: a new Loader/Dumper with the options, used once"""
    def run(E):
        import inspect
        v, T = z3.Const('value', V), z3.Const('T', V)
        E.assume(hashable(T))
        a, b = SV(z3.Const('given_a', V)), SV(z3.Const('given_b', V))
        kw = [{}, {'an_option': a}, {'an_option': a, 'b_option': b}][E.choose(3)]
        made = []

        def contract_init(E, args, kwargs):
            made.append((args, kwargs))
            E.oblige('%s: the options are given to the %s' % (f.__name__, cls.__name__), len(args) == 1 and list(kwargs) == list(kw) and all(kwargs[q] is kw[q] or E.force(kwargs[q]) is kw[q] for q in kw), tags)
            return NONE
        calls = []
        out = E.fresh('result')

        def contract_method(E, args, kwargs):
            d = inspect.signature(getattr(cls, method)).bind(*args, **kwargs)
            d.apply_defaults()
            s = E.force(d.arguments['self'])
            E.oblige('%s: uses the %s it makes' % (f.__name__, cls.__name__), isinstance(s, Ref) and E.class_of(s) is cls and len(made) == 1 and E.force(made[0][0][0]).a == s.a, tags)
            E.oblige('%s: of the value' % f.__name__, E.is_f(E.force(d.arguments['value']), SV(v)), tags)
            if method == 'load':
                E.oblige('%s: for the type' % f.__name__, E.is_f(E.force(d.arguments['type_']), SV(T)), tags)
                n = d.arguments['annotation']
                E.oblige('%s: the trace begins here' % f.__name__, n is None or E.is_f(E.force(n), NONE), ('C03',))
            else:
                t = d.arguments['annotated_type']
                E.oblige('%s: the annotation is not known' % f.__name__, t is typing.Any or E.is_f(E.force(t), PyC(typing.Any)), tags)
            calls.append(1)
            if E.branch(E.fresh('fails', B)):
                x = E.new_sym_exc('failure', TE if method == 'load' else Exception)
                E.put(x, **{'#mine': True})
                raise Raise(x)
            return SV(out)
        mod = cls.__module__
        E.contracts[(mod, cls.__name__ + '.__init__')] = contract_init
        E.contracts[(mod, '%s.%s' % (cls.__name__, method))] = contract_method
        kind, r = run_function(E, E.wrap(f), [SV(v)] + ([SV(T)] if method == 'load' else []), kw)
        E.oblige('%s: loads or dumps once' % f.__name__, len(calls) == 1, tags)
        if kind == 'normal':
            E.oblige('%s: the result is returned' % f.__name__, E.is_f(r, SV(out)), tags)
            return 'normal'
        E.oblige('%s: fails only if that fails' % f.__name__, bool(E.obj(r).d.get('#mine')), tags)
        return 'raise'
    return run


def v_tname(E):
    E.contracts.pop(('typedload.helpers', 'tname'), None)
    T = z3.Const('T', V)
    E.note('str() and __qualname__ of a type are strings')
    q = attr('__qualname__', T)
    assume_str(E, q)
    kind, r = run_function(E, E.wrap(typedload.helpers.tname), [SV(T)])
    E.oblige('tname: never raises', kind == 'normal', ('C02', 'C19'))
    E.oblige('tname: is a string', E.isinstance_f(r, PyC(str)), ('C02', 'C19'))
    return 'normal'


def v_text(E):
    E.contracts.pop(('typedload.helpers', 'text'), None)
    v = z3.Const('v', V)
    t = E.wrap(typedload.helpers.text)
    kind, r = run_function(E, t, [SV(v)])
    E.oblige('text of a value: never fails', kind == 'normal', ('C02', 'C19'))
    E.oblige('text of a value: is a string', E.isinstance_f(r, PyC(str)), ('C02', 'C19'))
    return 'normal'


ALL = [
    ('Loader options', v_options(dataloader.Loader, LOAD_OPTS, LOAD_CACHES, 0), ('normal',)),
    ('Dumper options', v_options(datadumper.Dumper, DUMP_OPTS, DUMP_CACHES, 0), ('normal',)),
    ('typedload.load', v_quick(typedload.load, dataloader.Loader, 'load', ('C01', 'C02', 'C13', 'C14')), ('normal', 'raise')),
    ('typedload.dump', v_quick(typedload.dump, datadumper.Dumper, 'dump', ('C09', 'C13', 'C14')), ('normal', 'raise')),
    ('tname', v_tname, ('normal',)),
    ('text', v_text, ('normal',)),
]

if __name__ == '__main__':
    main(ALL)
