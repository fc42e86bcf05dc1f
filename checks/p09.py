"""P09: DRAM commands obey the bank states and every timing parameter of the configuration."""
from dram import *

FINISH = dict(min_nontrivial=60, need=("timing_checks", "activate", "precharge", "read", "read_p", "write", "write_p", "refresh", "refresh_bank", "self_refresh_enter", "dual_commands"))


def check(ck):
    ck.rule = ("random requests on random variants of the shipped DRAM configurations; every command in the command trace is judged against bank states and timing constraints "
               "re-derived from the configuration file; non-trivial: runs with requests")
    ck.assumptions = ["constraints are those whose parameter the configuration file names; spacing of per-bank refreshes to other banks is not specified there"]
    dram_check(ck, ("timing-", "state-", "command-bus", "page-policy", "geometry", "range", "unknown-command", "trace-order", "notrace"), 600, 6000, 30000)
