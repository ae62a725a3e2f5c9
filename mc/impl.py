"""Entry points of the code under test used by the checks (public API only)."""

from __future__ import annotations

from functools import lru_cache


def parse(src, **kw):
    from pygerber.gerber.parser import parse as p

    return p(src, **kw)


def compile_ast(ast, **kw):
    from pygerber.gerber.compiler import compile as c

    return c(ast, **kw)


def rvmc_of(src):
    return compile_ast(parse(src))


def run_shapely(rvmc, **kw):
    from pygerber.vm import render

    return render(rvmc, backend="shapely", **kw)


def run_pillow(rvmc, dpmm=20, **kw):
    from pygerber.vm import render

    return render(rvmc, backend="pillow", dpmm=dpmm, **kw)
