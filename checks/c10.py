"""C10: crossprob_mc poisson."""
import common, mcstat


def main():
    return mcstat.run_check(common.Check("C10", mcstat.RULE), "poisson")
