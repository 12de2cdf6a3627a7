"""C07: RPC outcomes."""
import effprop

_E = effprop.Eff(r'^src/iop/(rpc-|ic|helpers)', (120, 3000))
LEVEL, run, freeze = _E.LEVEL, _E.run, _E.freeze
