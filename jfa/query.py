"""Queries over the resolved program: everything a function refers to."""
from .prog import FDecl


def nodes(fn):
    """Every AST node of a function, its constructor initialisers and nested lambdas."""
    fn.link()
    st = [fn.body] + list(getattr(fn, 'inits', []) or [])
    while st:
        x = st.pop()
        if isinstance(x, list):
            st += x
        elif isinstance(x, dict):
            yield x
            st += [v for v in x.values() if isinstance(v, (dict, list))]


def refs(fn):
    """(declaration, node) for every function, method or constructor fn refers to."""
    for x in nodes(fn):
        for v in x.values():
            if isinstance(v, FDecl):
                yield v, x


def line(x, fn):
    l = x.get('l')
    return l if isinstance(l, (list, tuple)) and len(l) >= 2 else (fn.file, fn.line)
