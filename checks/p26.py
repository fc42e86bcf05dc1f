"""P26: no cycle of a DRAM channel is lost: a command that is wanted and legal is issued."""
from dram import *

FINISH = dict(min_nontrivial=60, need=("idle_cycles", "waiting_requests_judged", "order_checks", "refusals_checked"))


def check(ck):
    ck.rule = ("random reads and writes, few or many outstanding, on random variants of the shipped configurations; in each cycle without a command the next command of every waiting request must still be illegal; "
               "non-trivial: runs with requests")
    ck.assumptions = ["cycles in which a refresh may be waiting are left out", "writes are judged where reads and writes share a queue, as a write buffer may hold them back"]
    dram_check(ck, ("idle-", "stuck", "geometry", "range"), 1200, 12000, 20000, focus=dict(conserve=True, sref=.2))
