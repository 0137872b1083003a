"""Properties that span all stepper families."""
import props_rk, props_adams, props_sympl, props_rosen, props_law, props_bs, props_adaptive, props_use
def C07(c):
    props_rk.rk_C07(c)
    props_law.law_check(c, "ros", 400, "attempts of the Rosenbrock controller", ['"ros"', '"a":1000', '"atmax":true'])
    props_bs.bs_C07(c)
    props_adaptive.adaptive_C07(c)
def C09(c):
    props_rk.rk_C09(c)
    props_sympl.sympl_C09(c)
    props_bs.bs_C09(c)
def C22(c):
    props_rk.rk_C22(c)
    props_adams.adams_C22(c)
    props_sympl.sympl_C22(c)
    props_rosen.rosen_C22(c)
    props_rosen.impl_C22(c)
    props_bs.bs_C22(c)
    props_adaptive.adaptive_C22(c)
    props_use.shape(c)
def C23(c):
    props_rk.rk_C23(c)
    props_adams.adams_C23(c)
    props_sympl.sympl_C23(c)
    props_rosen.rosen_C23(c)
    props_rosen.impl_C23(c)
    props_bs.bs_C23(c)
    props_adaptive.adaptive_C23(c)
    props_use.shape(c)
    props_use.containers(c)
