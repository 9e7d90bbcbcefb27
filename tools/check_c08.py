"""C08: conversions build exactly the marked variant."""
from vlib import *
import sem
import check_c11


def check(c):
    q = c.tier == "quick"
    # declarations with a marked field, and some without (which must have no conversion)
    rel = lambda g: bool(g[0]["froms"]) or any("from()" in f["at"] for v in g[0]["d"]["vs"] for f in v["fs"]) and c.rng.random() < 0.5 or c.rng.random() < (0.05 if q else 0.2)
    sem.run_sem(c, rel, dict(sem=900, semtypes=1000, semenumtypes=1000, semenum1=900, enumsem=900) if q else dict(sem=4000, semtypes=4000, semenumtypes=4000, semenum1=4000, enumsem=5000),
                lambda k: k.startswith(("from", "q")), want_from=True)
    c.validated = (c.validated or 0) + check_c11.conversions(c, 350 if q else 3000)


if __name__ == "__main__":
    main(check, "C08")
