"""P12: DRAM statistics equal what happened."""
from dram import *

FINISH = dict(min_nontrivial=40, need=("statistics_compared", "refresh_bank", "self_refresh_enter", "dual_commands", "forwarded_reads"))


def check(ck):
    ck.rule = ("random requests on random variants of the shipped configurations; every counter, per-rank cycle count, energy, histogram, average and bandwidth in the final and per-epoch statistics files "
               "is recomputed from the command trace, the requests and the power section; non-trivial: runs with statistics compared")
    ck.assumptions = ["energies are in V*mA*cycles, as the code documents; num_ondemand_pres is not claimed"]
    dram_check(ck, ("stats-",), 400, 5000, 24000, stats=True, key="statistics_compared")
