"""P11: every DRAM request completes exactly once, at the cycle its command implies, in order per address."""
from dram import *

FINISH = dict(min_nontrivial=60, need=("reads_done", "writes_done", "coalesced_reads", "forwarded_reads", "merged_writes", "refused_offers"))


def check(ck):
    ck.rule = ("random reads and writes on random variants of the shipped configurations, up to what the queues accept; every completion is matched with the request and the command that caused it; "
               "non-trivial: runs with requests")
    ck.assumptions = ["requests are offered only when WillAcceptTransaction says so, as the interface demands"]
    dram_check(ck, ("read-", "write-", "stuck", "geometry", "range"), 600, 6000, 30000)
