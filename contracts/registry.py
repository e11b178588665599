"""Which functions are under contract, and the properties their obligations belong to."""
import importlib
import json
import os

MODULES = ['load_containers', 'load_simple', 'load_core', 'load_objects', 'load_kinds', 'load_union', 'dump_core', 'dump_kinds', 'checks', 'dump_routing', 'exc', 'api', 'roundtrip']

# unit -> the properties that its obligations are about (written by tools/tagmap.py)
_f = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'props_map.json')
PROPS = json.load(open(_f)) if os.path.exists(_f) else {}
# the slow ones first
SPLIT = {'load union, first use of the discriminators': 8, 'load union, later uses of the discriminators': 8, 'load attrs': 8, 'load dict': 8,
         'load dataclass': 4, 'load tuple': 4, 'dump dataclass': 4}
FIRST = list(SPLIT) + ['_objloader']


def all_units():
    """[(module, name)]"""
    out = []
    for m in MODULES:
        mod = importlib.import_module('contracts.' + m)
        out += [(m, name) for name, thunk, ex in mod.ALL]
    out.sort(key=lambda u: FIRST.index(u[1]) if u[1] in FIRST else len(FIRST))
    return out


LEVEL = {}
BOUNDED = {}
ASSUMPTIONS = []
TRUSTED = [
    'pyvc, the verification condition generator in /verif/pyvc: its semantics of the Python subset used by typedload',
    'z3',
]
NA = {}
NOTES = {}


def note(i):
    us = sorted(u for u, ps in PROPS.items() if i in ps)
    s = 'Contracts proved for all inputs: %s.' % ', '.join(us)
    s += ' Trusted: the semantics of Python in /verif/pyvc, z3, and the assumptions listed in the evidence.'
    if i in BOUNDED:
        s += ' Bounded only (random search, not proved): %s.' % '; '.join(BOUNDED[i])
    if i in NOTES:
        s += ' ' + NOTES[i]
    return s
