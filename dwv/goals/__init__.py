"""Registry of proof goals: GOALS[property id] = [(goal name, function(h))]"""
GOALS = {}
def goal(prop, name):
    def deco(f):
        GOALS.setdefault(prop, []).append((name, f))
        return f
    return deco
def load():
    from . import layers, reuse, tensor, train, build, image, model
    return GOALS
def prepare(prog):
    """hook: goals that look at the program before the workers fork"""
