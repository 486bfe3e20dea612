"""PyXB checks every value of a simple type against facets that say nothing; these checks are left out.

Only the library is touched: a facet without a value, a pattern facet without patterns and an enumeration
without items accept everything, as does the facet for white space.
"""
import sys


def idle(facet):
    from pyxb.binding import facets
    if isinstance(facet, facets.CF_whiteSpace):
        return True
    if isinstance(facet, facets.CF_pattern):
        return len(facet._CF_pattern__patternElements) == 0
    if isinstance(facet, facets.CF_enumeration):
        return len(facet._items()) == 0
    return isinstance(facet, facets.ConstrainingFacet) and facet.value() is None


class Lean(dict):
    def __setitem__(self, cls, sequence):
        dict.__setitem__(self, cls, [f for f in sequence if not idle(f)])

    def get(self, cls):
        found = dict.get(self, cls)
        if found is None and self.complete():
            # a class with no facets of its own, for which the library collects the inherited ones every time
            self[cls] = self.collect(cls)
            found = dict.get(self, cls)
        return found

    @staticmethod
    def complete():
        # after the bindings have been imported no facet is added any more
        return 'ebu_tt_live.documents' in sys.modules

    @staticmethod
    def collect(cls):
        from pyxb.binding import basis
        result = []
        for c in reversed([c for c in cls.mro() if issubclass(c, basis.simpleTypeDefinition)]):
            try:
                own = list(c._FacetMap().values())
            except AttributeError:
                own = []
            result += [f for f in own if f not in result]
        return result


def install():
    from pyxb.binding import basis
    name = '_simpleTypeDefinition__ClassFacetSequence'
    lean = Lean()
    for k, v in getattr(basis.simpleTypeDefinition, name).items():
        lean[k] = v
    setattr(basis.simpleTypeDefinition, name, lean)
    if '__setattr__' in basis._TypeBinding_mixin.__dict__:
        # refuses some names, which costs an extra call for every attribute
        del basis._TypeBinding_mixin.__setattr__
