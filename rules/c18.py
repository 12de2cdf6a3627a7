"""C18: Documents."""
import effprop

_E = effprop.Eff(r'^src/(core/(yaml|xmlr|xmlpp)|iop/(json|yaml|xml-(pack|unpack)))', (150, 3500))
LEVEL, run, freeze = _E.LEVEL, _E.run, _E.freeze
