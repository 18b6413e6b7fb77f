"""Documented errors of built-in predicates about one argument."""
from gpl import docerr, obl

RULE = ('every documented error condition of the manual that constrains one argument is turned into an abstract call '
        '(argument kind fixed, the other arguments any valid value); an abstract interpretation of the library '
        'clauses and of the C built-ins they reach must show that no path succeeds or fails and that the documented '
        'error, about that argument, is raised')


def run(rep):
    obs, st = docerr.obligations()
    obs = [o for o in obs if obl.kind(o) == 'C02']
    rep.count(manual_conditions=st['conditions'], expressible=st['expressible'])
    return obl.decide(rep, obs, 'C02', 400)
