"""C25: flags, statistics, random numbers, operating system against references."""
from gpl import plref, refcheck

RULE = ('functions of the C units: same paths, calls, choice points, memory and value as a reference function; '
        'predicates of the Prolog units: same goals, alternatives, commitments and unifications as the reference clauses')
UNITS = ['BipsPl/flag_supp.c', 'BipsPl/flag_c.c', 'BipsPl/stat_c.c', 'BipsPl/random_c.c', 'BipsPl/os_interf_c.c', 'BipsPl/file_c.c',
 'BipsPl/sockets_c.c', 'BipsPl/error_supp.c', 'EnginePl/misc.c', 'EnginePl/machine.c', 'EnginePl/os_path.c', 'EnginePl/os_error.c',
 'EnginePl/os_spawn.c']
FILES = ['BipsPl/flag.pl', 'BipsPl/stat.pl', 'BipsPl/random.pl', 'BipsPl/os_interf.pl', 'BipsPl/file.pl', 'BipsPl/sockets.pl', 'BipsPl/pl_error.pl']


def run(rep):
    refcheck.units(rep, UNITS)
    plref.check(rep, FILES)
    return rep
