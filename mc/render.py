"""Execute a program end to end on the real code and compare with the reference picture."""

from __future__ import annotations

from mc import geom, gmodel, impl, oracle
from mc.core import Mismatch, Obs, expect

_PARSER = None


def parser():
    """Parser reused between executions of one worker (its history must not matter)."""
    global _PARSER
    if _PARSER is None:
        try:
            from pygerber.gerber.parser.pyparsing.parser import Parser

            _PARSER = Parser().parse
        except ImportError:
            _PARSER = impl.parse
    return _PARSER


PILLOW_DPMM = 20
PILLOW_TOL = 0.13


def check_program(ops, macros=None, src=None, pillow=True, shapely=True, pad=0.6, count=900,
                  sh_tol=oracle.SHAPELY_TOL, box=True):
    objects, states = gmodel.interpret(ops, macros)
    src = src or gmodel.text(ops)
    try:
        rvmc = impl.compile_ast(parser()(src))
    except Exception as e:
        raise Mismatch(f"program was not accepted: {type(e).__name__}: {e}", "a picture", src) from e
    return check_rvmc(rvmc, objects, states, len(ops), src, pillow, shapely, pad, count, sh_tol, box)


def check_rvmc(rvmc, objects, states, n, src, pillow=True, shapely=True, pad=0.6, count=900,
               sh_tol=oracle.SHAPELY_TOL, box=True, dpmm=PILLOW_DPMM, pil_tol=PILLOW_TOL):
    P = oracle.probes(objects, pad, count)
    skipped = 0
    sig = b""
    extent = geom.extent(objects)
    traces = 0
    try:
        if shapely:
            res = impl.run_shapely(rvmc)
            sk, sig = oracle.compare(objects, P, oracle.shapely_contains(res, P), sh_tol, "vector picture")
            skipped += sk
            traces += 1
            if box and extent is not None and extent[2] > extent[0] and extent[3] > extent[1]:
                oracle.box_contains(res.main_box, extent, 0.02, "vector image box misses drawn objects")
        if pillow:
            res = impl.run_pillow(rvmc, dpmm)
            traces += 1
            mask = oracle.pillow_mask(res)
            b = res.main_box
            if extent is not None and extent[2] > extent[0] and extent[3] > extent[1]:
                if box:
                    oracle.box_contains(b, extent, 0.02, "raster image box misses drawn objects")
                w, h = (b.max_x - b.min_x) * dpmm, (b.max_y - b.min_y) * dpmm
                expect(abs(mask.shape[1] - w) <= 1 and abs(mask.shape[0] - h) <= 1,
                       "raster size disagrees with image box", (w, h), mask.shape[::-1])
            sk, sig = oracle.compare(objects, P, oracle.pillow_contains(mask, b, dpmm, P), pil_tol,
                                     "raster picture")
            skipped += sk
    except Mismatch as e:
        e.got = f"{e.got}\nprogram:\n{src}"
        raise
    except Exception as e:
        raise Mismatch(f"rendering failed: {type(e).__name__}: {e}", "a picture", src) from e
    return Obs(states=states, transitions=n, traces=traces, outcome=sig, skipped=skipped)
