"""Merges: the finest one-to-one coarsening, for sequences of merges"""
import partcheck


def run(c):
    partcheck.run(c, True)
