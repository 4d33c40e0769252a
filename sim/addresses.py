"""
Seam for id(): simulated addresses, in the modules of the code under test.
"""

import random
import sys


def install(function):
    for (name, mod) in list(sys.modules.items()):
        if mod is not None and (name == 'uncertainties'
                                or name.startswith('uncertainties.')):
            mod.id = function


class Recycled(object):
    """
    Addresses that are given again, as soon as possible, to new objects (as
    CPython does): an object is gone when nothing else than the simulator
    refers to it.
    """

    def __init__(self, seed):
        self.rng = random.Random('addresses %s' % seed)
        self.known = {}         # Real address -> index
        self.objects = []
        self.addresses = []
        self.free = []
        self.n_reused = 0
        self.top = 0

    def sweep(self):
        objects = self.objects
        getrefcount = sys.getrefcount
        for i in range(len(objects)-1, -1, -1):
            if getrefcount(objects[i]) == 2:
                obj = objects[i]
                del self.known[id(obj)]
                self.free.append(self.addresses[i])
                last = objects.pop()
                address = self.addresses.pop()
                if i < len(objects):
                    objects[i] = last
                    self.addresses[i] = address
                    self.known[id(last)] = i
                last = obj = None

    def __call__(self, obj):
        index = self.known.get(id(obj))
        if index is None:
            self.sweep()
            if self.free and self.rng.random() < .9:
                address = self.free.pop()
                self.n_reused += 1
            else:
                self.top += 16*self.rng.choice((1, 1, 1, 2, 5))
                address = 0x7f0000000000+self.top
            index = len(self.objects)
            self.known[id(obj)] = index
            self.objects.append(obj)
            self.addresses.append(address)
        return self.addresses[index]
