"""Property id -> scenarios and how they are decided."""
import inspect
from . import c01_06 as A
from . import c07_10 as B
from . import c09 as B9
from . import c11_14 as C
from . import c15_20 as D
from . import c19_28 as E
from . import c21_23 as F
from . import c24_26 as G

VG = ('The routine and the reference formulas are both turned into gated value graphs by abstract interpretation of their '
      'source (no execution); an output is discharged when normalisation and value-graph sweeping make both sides one '
      'node, i.e. equal for every input of the declared domain. What is left is evaluated with outward-rounded intervals '
      'over small input boxes; only a box on which the enclosures are disjoint refutes.')
RULE = 'same value graph on both sides (all inputs), or no input box with provably disjoint enclosures'
BASE = ['real-number semantics: rounding is not modelled', 'inputs within the declared domains (checks/lib.py)',
        'numpy/math/cmath primitives have their documented meaning', 'points exactly on a branch threshold are compared only where the reference defines them']

LIBS = ['shapely, pyproj, rasterstats, fiona, csv, os, pandas, matplotlib behave as the models in spec/standins; calls outside those models are left undecided']

TECH = 'static translation validation: abstract interpretation of the source into gated value graphs, normalised and swept against the reference formulas; interval abstract interpretation over input boxes for refutation'


class Prop:
    def __init__(self, scenarios, level='translation_validation', explanation=VG, rule=RULE, assumptions=BASE, technique=TECH,
                 note='equality of value graphs proves the output for every input of the declared domain; undecided outputs are listed in the evidence and only refuted by interval enclosures'):
        self.technique, self.note = technique, note
        self._s = scenarios
        self.level, self.explanation, self.rule, self.assumptions = level, explanation, rule, assumptions

    def scenarios(self, tier):
        return self._s(tier) if inspect.signature(self._s).parameters else self._s()


PROPS = {
    'C01': Prop(A.c01), 'C02': Prop(A.c02), 'C03': Prop(A.c03), 'C04': Prop(A.c04), 'C05': Prop(A.c05), 'C06': Prop(A.c06),
    'C07': Prop(B.c07), 'C08': Prop(B.c08), 'C09': Prop(B9.c09), 'C10': Prop(B.c10),
    'C11': Prop(C.c11), 'C12': Prop(C.c12), 'C13': Prop(C.c13), 'C14': Prop(C.c14), 'C15': Prop(D.c15), 'C16': Prop(D.c16),
    'C24': Prop(G.c24, assumptions=BASE + LIBS), 'C25': Prop(G.c25, assumptions=BASE + LIBS),
    'C26': Prop(G.c26, assumptions=BASE + LIBS), 'C31': Prop(G.c31, assumptions=BASE + LIBS), 'C32': Prop(G.c32, assumptions=BASE + LIBS), 'C33': Prop(G.c33, assumptions=BASE + LIBS),
    'C21': Prop(F.c21), 'C22': Prop(F.c22), 'C23': Prop(F.c23),
    'C34': Prop(F.c34, assumptions=BASE + ['text goes to the terminal through print or sys.stdout.write; other ways are left undecided']),
    'C17': Prop(D.c17), 'C18': Prop(D.c18), 'C19': Prop(E.c19), 'C20': Prop(E.c20), 'C27': Prop(E.c27), 'C28': Prop(E.c28),
}
