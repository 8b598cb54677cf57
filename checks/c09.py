"""C09: crossprob_mc ecdf."""
import common, mcstat


def main():
    return mcstat.run_check(common.Check("C09", mcstat.RULE), "ecdf")
