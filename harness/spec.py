"""Shared by the hypothesis driver (CPython, python3-vt) and the worker (PyPy, the interpreter PyTeN runs on)."""


class Violation(Exception):
    """the code under test broke the property on this case"""


class Skip(Exception):
    """the case is outside the stated domain of the property (counted, never an alarm)"""


class Facet:
    """one executable statement of a part of a property.

    name      identifier of the facet inside its property
    strategy  function(st) -> hypothesis strategy of JSON-able cases
    run       function(case) -> None | bool | (bool, tag): raises Violation when the oracle disagrees;
              the bool says whether the case was non-trivial
    quick, thorough   number of generated cases (all shards together)
    rule      what makes a case of this facet non-trivial
    examples  fixed cases that are always run in addition
    """

    def __init__(self, name, strategy, run, quick, thorough=None, rule='', examples=(), case_timeout=120):
        self.name = name
        self.strategy = strategy
        self.run = run
        self.quick = quick
        self.thorough = thorough or quick * 25
        self.rule = rule
        self.examples = list(examples)
        self.case_timeout = case_timeout


def need(cond, msg, *args):
    if not cond:
        raise Violation(msg.format(*args) if args else msg)
