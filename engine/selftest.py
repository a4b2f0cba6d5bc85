"""Self-test of the prover: true statements are discharged, false ones are refuted with a counter-model, unsupported
code is undecided (never proved)."""
from . import sym
from .sym import Engine, SB, Undecided


def main():
    def run(body, mode='real'):
        E = Engine(fp_mode=mode)
        try:
            E.run(lambda: body(E))
        except Undecided:
            return 'undecided'
        return [o.result for o in E.obligations]

    def abs_ok(E):
        x = E.real('x')
        y = x if x >= 0 else -x
        E.prove(y >= 0, 'abs')

    def abs_bad(E):
        x = E.real('x')
        y = x if x >= -1 else -x
        E.prove(y >= 0, 'abs')

    def order(E):
        x, y = E.f64('x', True), E.f64('y', True)
        E.assume(x < y)
        E.prove(sym.nextafter(x, float('inf')) <= y, 'successor')

    def order_bad(E):
        x, y = E.f64('x', True), E.f64('y', True)
        E.assume(x < y)
        E.prove(sym.nextafter(x, float('inf')) < y, 'successor')

    assert run(abs_ok) == ['proved', 'proved']
    assert 'refuted' in run(abs_bad)
    assert run(order, 'ieee') == ['proved'] and run(order_bad, 'ieee') == ['refuted']
    print('selftest ok')
