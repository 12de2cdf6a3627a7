"""Properties decided by the inventory of what each function does, one set of files each."""
import re
import effects

LEVEL = 'other'
RULE = ('Inventory of observable effects. Every function of the files below is lowered to LLVM IR with its static helpers '
        'inlined, and reduced to what it does to the outside: which functions and callbacks it calls with which named things, '
        'which fields and globals it sets to what, what it returns, which named quantities it tests at which bounds, which '
        'constants it computes with, what it does before and what after a callback, each with the conditions that hold on every path to it '
        '(conjunctions computed by dataflow, normalised as linear comparisons). The reviewed inventory is in data/effects_%s.txt; a '
        'function breaks it when an effect is gone, needs a condition it did not need, is done although a condition it '
        'needed does not hold, compares with another bound, or has changed sides of a callback. Renamed variables, extracted or merged helpers, '
        'split, inverted or reordered conditions, rewritten loops and moved statements give the same inventory')
ASSUME = ['the reviewed inventory is what the property asks for',
          'effects on unnamed local values, bytes of local buffers and the contents of messages are not compared',
          'a new static function of the same file is taken to be a piece of the functions that call it',
          'conditions are compared as conjunctions: which of two reviewed alternatives holds is not decided']


class Eff:
    def __init__(self, files, floor, extra=''):
        self.files = re.compile(files)
        self.floor = floor
        self.extra = extra
        self.LEVEL = LEVEL

    def _sel(self, f):
        return bool(self.files.search(f))

    def run(self, ctx):
        ctx.rule = RULE % ctx.prop.lower() + ('. ' + self.extra if self.extra else '')
        ctx.assumptions = list(ASSUME)
        effects.run(ctx, self._tu, self.floor)

    def _tu(self, f):
        # the headers and included files of the set come with the units that include them
        return self._sel(f)

    def freeze(self, ctx):
        effects.freeze(ctx, self._tu, want=lambda f: self._sel(f.file) and not f.file.endswith('.h'))
