"""P10: DRAM refresh keeps its rate; idle ranks sleep and wake."""
from dram import *

FINISH = dict(min_nontrivial=40, need=("refresh_checks", "refresh_delay_checks", "refresh", "refresh_bank", "sleep_checks", "self_refresh_enter", "self_refresh_exit"))


def check(ck):
    ck.rule = ("random requests, with busy, bursty and idle phases, on random variants of the shipped configurations; refreshes per rank or bank are counted against the configured interval, "
               "gaps and sleeping ranks are bounded; non-trivial: runs with refresh checks")
    ck.assumptions = ["per-bank rates are claimed where a bank refresh fits into the interval", "rank rates allow a refresh to be late by one interval and two per stay in self-refresh"]
    dram_check(ck, ("refresh-", "self-refresh-", "state-sref", "state-refresh"), 480, 5000, 45000, focus={"plain": .1, "sref": .5, "fast_refresh": .8, "bank_refresh": .3}, key="refresh_checks")
