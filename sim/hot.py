'''
Where the code under test touches state that is not the caller's: globals
that are assigned, mutable objects at module or class level, mutable default
arguments, attributes of classes and functions, the state of the process.
Only a hint for the scheduler, which likes to switch there; it decides
nothing about a verdict.
'''
import dis
import re
import types

FIXED = (types.FunctionType, types.BuiltinFunctionType, types.ModuleType,
         type, str, bytes, int, float, bool, tuple, frozenset, type(None),
         re.Pattern, staticmethod, classmethod, property)
PROCESS = ('chdir', 'environ', 'putenv', 'umask', 'setrecursionlimit',
           'seed', 'setlocale', 'rcParams', '__class__', '__dict__',
           'setdefaulttimeout', 'tempdir')


def codes(code):
    yield code
    for k in code.co_consts:
        if isinstance(k, types.CodeType):
            for x in codes(k):
                yield x


def functions(mods):
    '''(function, globals) for all functions of the modules.'''
    seen = set()
    for m in mods:
        for v in list(vars(m).values()):
            stack = [v]
            while stack:
                f = stack.pop()
                f = getattr(f, '__func__', f)
                f = getattr(f, 'fget', f) or f
                f = getattr(f, '__wrapped__', f)
                if isinstance(f, type):
                    if f.__module__ == m.__name__ and f not in seen:
                        seen.add(f)
                        stack += list(vars(f).values())
                elif isinstance(f, types.FunctionType):
                    if f.__module__ == m.__name__ and f not in seen:
                        seen.add(f)
                        yield f


def steps(ins):
    line = None
    for i in ins:
        if i.positions is not None and i.positions.lineno is not None:
            line = i.positions.lineno
        yield i, line


def assigned(ins):
    for i, line in steps(ins):
        if i.opname == 'STORE_FAST':
            yield i.argval, line


def touched(f, ins, shared, attrs, stored):
    lines = set()
    for i, line in steps(ins):
        n = i.argval
        if i.opname in ('STORE_GLOBAL', 'DELETE_GLOBAL'):
            lines.add(line)
        elif i.opname in ('LOAD_GLOBAL', 'LOAD_NAME'):
            if (f.__module__, n) in stored:
                lines.add(line)
            elif n in f.__globals__ and not n.isupper() and \
                    not isinstance(f.__globals__[n], FIXED):
                lines.add(line)
        elif i.opname in ('LOAD_ATTR', 'STORE_ATTR', 'LOAD_METHOD',
                          'DELETE_ATTR'):
            if n in attrs or n in PROCESS:
                lines.add(line)
        elif 'FAST' in i.opname:
            if (set(n) if isinstance(n, tuple) else {n}) & shared:
                lines.add(line)
    return lines


def find(mods):
    '''{id of code object: set of lines}'''
    fs = list(functions(mods))
    classes = set(v for m in mods for v in vars(m).values()
                  if isinstance(v, type) and v.__module__ == m.__name__)
    attrs = set()
    for k in classes:
        for n, v in vars(k).items():
            if not n.startswith('__') and not isinstance(v, FIXED):
                attrs.add(n)
    stored = set()
    every = []
    for f in fs:
        for c in codes(f.__code__):
            every.append((f, c, list(dis.get_instructions(c))))
    for f, c, ins in every:
        prev = None
        for i in ins:
            if i.opname in ('STORE_GLOBAL', 'DELETE_GLOBAL'):
                stored.add((f.__module__, i.argval))
            elif i.opname == 'STORE_ATTR' and prev is not None:
                v = None
                if prev.opname == 'LOAD_GLOBAL':
                    v = f.__globals__.get(prev.argval)
                if isinstance(v, (type, types.FunctionType)) or \
                        prev.argval == '__class__':
                    attrs.add(i.argval)
            prev = i
    hot = {}
    for f, c, ins in every:
        shared = set()
        names = c.co_varnames[:c.co_argcount]
        if c is f.__code__:
            d = f.__defaults__ or ()
            for n, v in zip(names[len(names) - len(d):], d):
                if not isinstance(v, FIXED):
                    shared.add(n)
        # a variable that is given a shared object is another name for it
        for _ in range(3):
            lines = touched(f, ins, shared, attrs, stored)
            more = set(n for n, line in assigned(ins) if line in lines)
            if more <= shared:
                break
            shared |= more
        lines.discard(None)
        if lines:
            hot[id(c)] = lines
    return hot


if __name__ == '__main__':
    import sys
    from . import world
    world.install(sys.argv[1])
    mods = [m for n, m in sorted(sys.modules.items())
            if n.split('.')[0] == 'gimpy']
    h = find(mods)
    for f in functions(mods):
        for c in codes(f.__code__):
            if id(c) in h:
                print(c.co_filename.rsplit('/')[-1], c.co_qualname,
                      sorted(h[id(c)]))
