"""Loading marsh and user universes, and performing calls on them."""
import ast
import linecache
import os
import sys
import types
import typing

from . import sched
from .core import REPO, digest
from .describe import describe, error

READY = None
HOOK = None  # called at the start of every function of a universe, where set


def template(events=None, user_events=None):
    """Import the dependencies, then marsh behind the simulated locks."""
    global READY, marsh
    events = sched.LINES if events is None else events
    import dateparser
    import omegaconf
    import yaml
    import typing_extensions  # noqa: F401
    import argparse, ast, base64, calendar, csv, decimal, difflib, doctest  # noqa: F401,E401
    import encodings.utf_8, glob, gzip, inspect, json, logging, numbers  # noqa: F401,E401
    import pathlib, random, re, shutil, tempfile, textwrap, tokenize  # noqa: F401,E401
    # load what is imported lazily by the dependencies
    dateparser.parse('2020-01-02 03:04')
    dateparser.parse('3 hours ago')
    omegaconf.OmegaConf.to_container(
        omegaconf.OmegaConf.create({'a': '${b}', 'b': [1]}), resolve=True)
    yaml.safe_load('a: [1, 2020-01-02]')
    sys.pycache_prefix = os.path.join(os.environ.get('MARSH_SIM_SCRATCH', '/nonexistent'), 'pyc')
    sys.dont_write_bytecode = True
    sched.patch_threading()
    import marsh as m
    import marsh.doc  # noqa: F401
    import marsh.entry_point  # noqa: F401
    import marsh.parse  # noqa: F401
    import marsh.schema.argument  # noqa: F401
    where = os.path.realpath(m.__file__)
    if not where.startswith(os.path.realpath(REPO) + '/'):
        raise RuntimeError(f'marsh was imported from {where}, not from {REPO}')
    globals()['marsh'] = m
    sched.install(events)
    sched.instrument_package(os.path.dirname(m.__file__) + '/', events)
    READY = events
    return m


# --------------------------------------------------------------------------
# universes


def clear_typing():
    for f in typing._cleanups:
        f()


def load_universe(name, source, fresh_typing=True):
    if fresh_typing:
        clear_typing()
    fname = f'<user:{name}>'
    lines = source.splitlines(True)
    linecache.cache[fname] = (len(source), None, lines, fname)
    mod = types.ModuleType(name)
    if HOOK is None:
        code = compile(source, fname, 'exec', dont_inherit=True)
    else:
        code = compile(hooked(ast.parse(source)), fname, 'exec', dont_inherit=True)
        mod.__dict__['__sim_hook__'] = HOOK
    mod.__file__ = fname
    sys.modules[name] = mod
    exec(code, mod.__dict__)
    if READY is not None:
        sched.instrument_code(code, READY)
        sched.CLEANUP.setdefault(fname, sched.cleanup_ranges(fname, source))
    return mod


class Hooked(ast.NodeTransformer):
    def visit_ClassDef(self, node):
        self.generic_visit(node)
        if any('Schema' in ast.unparse(b) for b in node.bases):
            for x in node.body:  # called while schemas are built
                if isinstance(x, ast.FunctionDef) and x.name == '__init__':
                    x.body[0].value.args[0].value = 'init of schema'
        return node

    def visit_FunctionDef(self, node):
        self.generic_visit(node)
        call = ast.parse(f'__sim_hook__({node.name!r})').body[0]
        for x in ast.walk(call):
            ast.copy_location(x, node.body[0])
        doc = (isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant)
               and isinstance(node.body[0].value.value, str))
        node.body.insert(1 if doc else 0, call)
        return node

    def visit_Lambda(self, node):
        self.generic_visit(node)
        call = ast.parse('(__sim_hook__("lambda"), 0)[1]', mode='eval').body
        for x in ast.walk(call):
            ast.copy_location(x, node.body)
        call.value.elts[1] = node.body
        node.body = call
        return node


def hooked(tree):
    return ast.fix_missing_locations(Hooked().visit(tree))


def load_universes(sources, fresh_typing=True):
    return {n: load_universe(n, s, fresh_typing) for n, s in sources.items()}


class Prepared:
    """A call with its type and arguments evaluated."""

    __slots__ = ('call', 'T', 'args', 'schema', 'mod')

    def __init__(self, call, mods, fresh_typing=True):
        if fresh_typing:
            clear_typing()
        self.call = call
        self.mod = mods[call['u']]
        ns = self.mod.__dict__
        self.T = eval(call['t'], ns)
        self.args = [eval(a, ns) for a in call['a']]
        self.schema = None

    def build(self):
        """Used by calls on a schema that is built beforehand."""
        if self.call['op'].startswith('s_'):
            try:
                self.schema = marsh.schema.UnmarshalSchema(self.T)
            except Exception as err:
                self.schema = err


class Text(list):
    """The description of a result."""


def op_default(p):
    schema = marsh.schema.UnmarshalSchema(p.T, default=p.args[0])
    return [schema.has_default(), schema.get_default(), schema.doc()]


def schema_of(p):
    if isinstance(p.schema, Exception):
        raise p.schema
    return p.schema


def op_select(p):
    schema = marsh.schema.UnmarshalSchema(p.T).select(p.args[0])
    return [str(schema), schema.doc()]


OPS = {
    'unmarshal': lambda p: marsh.unmarshal(p.T, *p.args),
    'unmarshal_kw': lambda p: marsh.unmarshal(p.T, p.args[0], **p.args[1]),
    # use of what a result makes by itself, as a part of the call
    'touch': lambda p: Text(describe(marsh.unmarshal(p.T, *p.args), touch=True)),
    'cast': lambda p: marsh.cast(p.T, *p.args),
    'marshal': lambda p: marsh.marshal(p.args[0]),
    'str': lambda p: str(marsh.schema.UnmarshalSchema(p.T)),
    'doc': lambda p: marsh.schema.UnmarshalSchema(p.T).doc(p.args[0]),
    'help': lambda p: marsh.doc.terminal.format_unmarshal_help(p.T, width=60, depth=p.args[0]),
    'rst': lambda p: marsh.doc.restructuredtext.format_types(p.T),
    'select': op_select,
    'default': op_default,
    'unmarshal_args': lambda p: marsh.unmarshal_args(p.T, *p.args),
    'cast_args': lambda p: marsh.cast_args(p.T, *p.args),
    'fn': lambda p: p.T(*p.args),
    # a schema built beforehand, shared by all the threads that use it
    's_unmarshal': lambda p: schema_of(p).unmarshal(*p.args),
    's_doc': lambda p: schema_of(p).doc(p.args[0]),
    's_str': lambda p: str(schema_of(p)),
}


def act(p):
    """Make the call."""
    try:
        return 'value', OPS[p.call['op']](p)
    except sched.Killed:
        raise
    except BaseException as err:
        return 'error', err


def outcome(res):
    """What is compared of the result of act."""
    kind, x = res
    if kind == 'error':
        return error(x)
    return ['value', describe(x, touch=True)]


def perform(p):
    return outcome(act(p))


def call_text(call):
    return f"{call['op']}({call['t']}, {', '.join(call['a'])}) in {call['u']}"


# --------------------------------------------------------------------------
# outcomes of a call that is the only one in the process


SLOW = 150_000  # calls that take more lines than this are not used


def run_alone(source, call, fresh_typing=True):
    mods = load_universes({call['u']: source}, fresh_typing)
    p = Prepared(call, mods, fresh_typing)
    solo = sched.Solo(max_lines=SLOW)
    p.build()
    getattr(p.mod, '_LOG', []).clear()  # products made by evaluating the arguments
    out = None
    with solo as t:
        try:
            with sched.armed(t, None):
                res = act(p)
            out = outcome(res)
        except sched.Killed:
            pass
    made = [n for n, _ in getattr(p.mod, '_LOG', ())]
    return dict(out=out, lines=t.n, p=t.p, u=t.u, made=made, problem=solo.problem)


def alone_key(source, call, fresh_typing=True):
    return digest([source, call, fresh_typing])


def alone(world, spec, call, fresh_typing=True):
    source = spec['universes'][call['u']]
    return world.alone(alone_key(source, call, fresh_typing), 'sim.conv:run_alone', source, call,
                       fresh_typing)


def share_schemas(prepared):
    """Equal calls on schemas built beforehand use the same schema object."""
    made = {}
    for p in prepared:
        if p.call['op'].startswith('s_'):
            key = (p.call['u'], p.call['t'])
            if key not in made:
                p.build()
                made[key] = p.schema
            p.schema = made[key]
