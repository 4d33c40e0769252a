"""
Properties with their own kind of simulated world.
"""

from . import forks, imports, memory, persist, race, repro, runner, shapes, updater


def _one_child(func):
    def run(plan):
        (result, death) = runner.in_child(func, plan)
        if result is None:
            return runner.dead(plan, death)
        return result
    return run


RUNNERS = {'race': _one_child(race.run_race),
           'shape': _one_child(shapes.run_shape),
           'persist': persist.run_persist,
           'update': _one_child(updater.run_update),
           'repro': repro.run_repro,
           'imports': imports.run_imports,
           'forks': _one_child(forks.run_forks),
           'leak': _one_child(memory.run_leak)}
GENERATORS = {'C06': race.make_plan, 'C11': shapes.make_plan,
              'C08': persist.make_plan,
              'C12': updater.make_plan, 'C15': memory.make_plan,
              'C16': repro.make_plan, 'C18': imports.make_plan,
              'C19': forks.make_plan}
RULES = {}
