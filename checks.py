# property -> how check.py decides it
def E(h, flavors=("A",), **kw):
    return dict(runs=[dict(harness=h, flavor=f) for f in flavors], **kw)

CHECKS = {
    "C01": E("h_C01"),
}
CHECKS["C02"] = E("h_C02", ("A", "B"))
CHECKS["C03"] = E("h_C03")
CHECKS["C04"] = E("h_C04")
CHECKS["C05"] = E("h_C05", ("A", "B"))
CHECKS["C06"] = E("h_C06", ("A", "B"))
CHECKS["C07"] = E("h_C07", ("A", "B"))
CHECKS["C08"] = E("h_C08", ("A", "B"))
CHECKS["C09"] = E("h_C09", ("A", "B"))
CHECKS["C10"] = E("h_C10", ("A", "B"))
CHECKS["C13"] = E("h_C13")
CHECKS["C14"] = E("h_C14")
CHECKS["C15"] = E("h_C15")
CHECKS["C16"] = E("h_C16")
CHECKS["C17"] = E("h_C17")
CHECKS["C18"] = E("h_C18", ("A", "B"))
CHECKS["C19"] = E("h_C19")
CHECKS["C20"] = E("h_C20")
CHECKS["C21"] = E("h_C21")
CHECKS["C22"] = E("h_C22")
CHECKS["C23"] = E("h_C23", ("A", "B"))
CHECKS["C24"] = E("h_C24")
CHECKS["C25"] = E("h_C25")
CHECKS["C26"] = E("h_C26")
CHECKS["C11"] = E("h_C11", ("S",))
CHECKS["C12"] = E("h_C12", ("S",))
CHECKS["C28"] = E("h_C28", ("A", "B"))
CHECKS["C27"] = E("h_C27")
CHECKS["C29"] = E("h_C29", ("A", "B"))
CHECKS["C30"] = E("h_C30", ("P",), technique="bounded exhaustive model checking of the implementation under a fault injector: every configuration "
                  "and every set of failing library calls in the stated bounds is executed and compared with a reference model")
