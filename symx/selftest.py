"""Setup check: the tools are present and the engine agrees with real SQLite on a small workload."""
import importlib
import sys


def main():
    import z3
    from . import detuuid, env, core
    from .explore import RealRunner, run_path, obs_equal
    detuuid.install()
    env.install()
    importlib.import_module('props.C01')
    from .harness import SCENARIOS
    runner = RealRunner('C01')
    sc = SCENARIOS['split_by_weight']
    stats = core.Stats()
    rec, pending = run_path(sc, sc.params['quick'], [], stats, runner, True, 20000)
    runner.close()
    ok = rec['status'] == 'ok' and rec.get('verdict') == 'agree'
    core.set_ctx(core.Ctx([], core.Stats(), 20000))
    x = z3.Int('x')
    for v in (-257, -3, 0, 5, 6, 255, 2 ** 64 + 9):
        for m in (0, 1, 6, 0xf0f, -8, 2 ** 63 - 1):
            for op in ('__and__', '__or__', '__xor__'):
                got = getattr(core.SNum(x, 'int'), op)(m)
                e = z3.simplify(z3.substitute(core.num_expr(got), (x, z3.IntVal(v))))
                ok = ok and e.as_long() == getattr(v, op)(m)
    core.set_ctx(None)
    print(f'z3 {z3.get_version_string()}, python {sys.version.split()[0]}, path: {rec["status"]}, replay: {rec.get("verdict")}')
    return 0 if ok else 1
