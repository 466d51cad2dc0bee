"""equal-energy blocks of sortIG."""
from contracts.common import *
from contracts.C03 import sort_contract
def contracts():
    return [Contract('sortIG blocks', sort_contract(False, True), funcs=['irrep.gvectors.sortIG'])]
