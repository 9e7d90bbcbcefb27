"""C09: a backtrace request is answered by the declared backtrace."""
from vlib import *
import sem


def check(c):
    q = c.tier == "quick"
    rel = lambda g: True
    sem.run_sem(c, rel, dict(sem=1400, semtypes=1600, semenumtypes=1600, semenum1=1400, enumsem=1200) if q else dict(sem=6000, semtypes=6000, semenumtypes=6000, semenum1=6000, enumsem=6000),
                lambda k: k.endswith((".bt", ".tag", ".other")))


if __name__ == "__main__":
    main(check, "C09")
