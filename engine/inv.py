"""Class invariants assumed of arguments (preconditions of the cross-check)."""
from terms import *
from state import *
def assume(I, f): pass
