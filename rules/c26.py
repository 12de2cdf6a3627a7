"""C26: Containers."""
import effprop

_E = effprop.Eff(r'^src/(container/|arith/|core/(obj|sort))', (60, 800))
LEVEL, run, freeze = _E.LEVEL, _E.run, _E.freeze
