"""P13: the HMC model completes every request exactly once and its vaults obey DRAM rules."""
from dram import *

FINISH = dict(min_nontrivial=20, need=("reads_done", "writes_done", "timing_checks", "refresh", "refused_offers"))


def check(ck):
    ck.rule = ("random reads and writes on random variants of the shipped HMC configurations (links, block sizes, queue depths); completions per address, vault command traces and statistics are judged; "
               "non-trivial: runs with requests")
    ck.assumptions = ["a read and a write of one address in flight together may complete in either order (the model identifies requests by address)"]
    dram_check(ck, ("",), 160, 2000, 20000, hmc=True, stats=True)
