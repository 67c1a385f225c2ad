from checks.lib import *

FLOOR = 14
RULE = "value graph of each numeric-trait method is congruent to the operation it names, at both supported number types"
EXPLANATION = ("value numbering of the methods through which every generic function performs its arithmetic, at an arbitrary real "
               "and at an arbitrary complex number")
R_, C_ = "<f64 as types::Num>::", "<num::Complex<f64> as types::Num>::"


def run(c):
    z = atom("self")
    ops = {"re": re(z), "im": im(z), "abs": absn(z), "sqrt": sqrt(z), "ln": ln(z), "exp": exp(z), "inv": inv(z)}
    real = dict(ops, re=z, im=ZERO)
    for m in ops:
        c.eqv("real:" + m, "%s of a real number is not the operation it names" % m, lambda: c.v(R_ + m), real[m])
        c.eqv("complex:" + m, "%s of a complex number is not the operation it names" % m, lambda: c.v(C_ + m), ops[m],
              cplx=("self",))
