import common
import gcroot


def simulate():
    M = common.load_module(inline=True, thread=True)
    if len(M.funcs) < 700:
        raise common.AnalysisBroken("only %d functions in the linked program" % len(M.funcs))
    return M, gcroot.Sim(M).run()
