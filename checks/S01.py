"""Partitions are the connected components of the specified matrix"""
import partcheck


def run(c):
    partcheck.run(c, False)
