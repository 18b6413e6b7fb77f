"""C29: WAM to assembly (wam2ma, ma2asm), name mangling and the compiler driver against reference functions."""
from gpl import plref, refcheck

RULE = ('functions of the C units: same paths, calls, memory and value as a reference function')
UNITS = ['Wam2Ma/wam2ma.c', 'Wam2Ma/wam_parser.c', 'TopComp/mangling.c', 'TopComp/top_comp.c', 'Tools/rbtree.c']
REGS = ['Ma2Asm/ma2asm.c', 'Ma2Asm/ma_parser.c', 'Ma2Asm/ma2asm_inst.c']


def run(rep):
    refcheck.units(rep, UNITS)
    refcheck.units(rep, REGS, regs=True)
    return rep
