"""functions of the crate that no contract reaches.

outside.txt lists, for the tree the contracts were written for, the functions executed inline at their call sites and those
left out (Debug, derived impls, constructors).  A function that appears in neither list nor under a contract is new: what it does is seen only
through the contracts of the functions that call it, so it is reported."""
import os, re
F = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'outside.txt')
def known():
    return {l.split(' ', 1)[1].strip() for l in open(F) if l.strip() and not l.startswith('#')}
def new(crate, specs):
    k = known()
    return sorted(x for x in crate.by_key if x not in specs and x not in k and '{closure' not in x and 'promoted[' not in x and not x.startswith('derive('))
