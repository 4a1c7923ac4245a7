"""Shared by demos: build control flow graphs, run them unoptimised and optimised."""
import itertools
from sonolus.backend.interpret import Interpreter
from sonolus.backend.ir import IRConst, IRExpr, IRGet, IRInstr, IRPureInstr, IRSet
from sonolus.backend.ops import Op
from sonolus.backend.optimize import (FAST_PASSES, MINIMAL_PASSES, STANDARD_PASSES, OptimizerConfig,
                                      optimize_and_finalize)
from sonolus.backend.optimize.flow import BasicBlock
from sonolus.backend.place import BlockPlace, TempBlock

LEVELS = (MINIMAL_PASSES, FAST_PASSES, STANDARD_PASSES)


def const(x):
    return IRConst(x)


def temp(name):
    return BlockPlace(TempBlock(name, 1), 0)


def get(p):
    return IRGet(p)


def inp(i, block=100):
    return IRGet(BlockPlace(block, i))


def put(p, v):
    return IRSet(p, v)


def op(o, *a):
    return (IRPureInstr if o.pure else IRInstr)(o, list(a))


def log(v):
    return IRInstr(Op.DebugLog, [v if not isinstance(v, (int, float)) else IRConst(v)])


def run(cfg, level, memory):
    node = optimize_and_finalize(cfg, level, OptimizerConfig())
    it = Interpreter()
    for (b, i), v in memory.items():
        it.set(b, i, v)
    it.run(node)
    mem = {(b, i): it.get(b, i) for b in (100, 101, 200) for i in range(16)}
    return list(it.log), mem


def agree(build, memories):
    bad = 0
    for m in memories:
        outs = [run(build(), lv, m) for lv in LEVELS]
        for lv, o in zip(LEVELS[1:], outs[1:]):
            if o != outs[0]:
                bad += 1
                print("levels disagree", lv, m, outs[0][0], o[0])
    return bad
