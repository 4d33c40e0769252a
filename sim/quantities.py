"""
Numbers with uncertainties defined by users (they are at the top level of this
module so that pickle finds them), with attributes in slots or not; many of them
have the same name.
"""

import uncertainties.core as core


class Lab(object):

    class Quantity(core.Variable):
        __slots__ = ('unit', 'place')


class Other(object):

    class Quantity(core.Variable):
        __slots__ = ()


class Free(object):

    class Quantity(core.Variable):
        pass


class Single(object):

    class Quantity(core.Variable):
        __slots__ = 'scale'


class Derived(object):

    class Quantity(Lab.Quantity):
        __slots__ = ('comment',)


class Mixed(object):

    class Quantity(Lab.Quantity):
        pass


class Mixin(object):
    __slots__ = ()


class Diamond(object):

    class Quantity(Mixin, Single.Quantity):
        __slots__ = iter(['a', 'b'])

    # (An iterator is used up by the definition of the class.)
    Quantity.__slots__ = ['a', 'b']


# Attributes that can be given to the numbers of each class:
ATTRIBUTES = {
    'Lab': ['unit', 'place'], 'Other': [], 'Free': ['x', 'unit'],
    'Single': ['scale'], 'Derived': ['unit', 'place', 'comment'],
    'Mixed': ['unit', 'y', 'z'], 'Diamond': ['scale', 'a', 'b'],
}
ALL = sorted(set(sum(ATTRIBUTES.values(), [])))


def get(name):
    return globals()[name].Quantity


def state(x):
    "Class and attributes of a number (None for ordinary numbers)"
    cls = type(x)
    if cls.__module__ != __name__:
        return None
    return [cls.__qualname__.split('.')[0],
            dict((a, getattr(x, a)) for a in ALL if hasattr(x, a))]
