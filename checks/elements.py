#!/usr/bin/env python3
"""P13: loops over elements, columns and vectors leave none out, and what they
fill is filled."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common
import turns

PROP = "P13"


def check(rep):
    rep.rule("ends", "a loop counting through elements begins with the first and ends after the last, or handles these elsewhere", 300)
    rep.rule("left", "a loop filling a result is not left before the end unless the result is dropped, complete, or the operation fails", 80)
    rep.rule("filled", "a vector made for a number of elements is filled up to that number", 30)
    M = common.load_module()
    c = turns.Check(M, rep)
    c.run()
    rep.coverage["functions"] = len(M.funcs)


if __name__ == "__main__":
    common.main(PROP, check)
