"""C25: Event loop, jobs, modules and logs."""
import effprop

_E = effprop.Eff(r'^src/core/(el|thr|module|log|unix|errors|parseopt|rand)', (220, 3000))
LEVEL, run, freeze = _E.LEVEL, _E.run, _E.freeze
