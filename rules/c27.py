"""C27: Metrics and addresses."""
import effprop

_E = effprop.Eff(r'^src/(prometheus-client/|net/(addr|socket|sctp|rate))', (60, 600))
LEVEL, run, freeze = _E.LEVEL, _E.run, _E.freeze
