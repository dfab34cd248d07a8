"""writes /verif/known_findings.json"""
import json, os
FIXED = [("C04", "21994cf", "Pt_ratio ignored gamma in the isentropic ratios"), ("C11", "4acc133", "1D state constructors and copies lost gamma"),
 ("C11", "181cad0", "isentropic transformation used static pressure instead of total"), ("C19", "f94710b", "RKF45 stopped short of xStop when the last step was rejected"),
 ("C13", "7e6ac29", "sampling of the right expansion tail"), ("C13", "592e860", "gamma of the sampled state at the contact"),
 ("C24", "2ae932e", "eta_cc ignored in the fuel-air ratio"), ("C24", "f23d730", "wrong factor and sign in the ideal turbine power"), ("C24", "87c5107", "turbofan ignored xi_nozzle"),
 ("C28", "bec6176", "Propulsion could not be imported"), ("C26", "e160084", "extendvar could not be imported"), ("C26", "aa3812b", "unknown software erased the current naming database"),
 ("C15", "83805e9", "nozzle ignored gamma in several relations"), ("C16", "b209e5f", "building a nozzle overwrote the saved default gas"),
 ("C02", "ff724c0", "subsonic inverse diverged for some gamma/ratio"), ("C18", "b0cb0cf", "secant solver returned its guess for small or zero guesses"),
 ("C06", "c9a3793", "zero and negative deflection in the iterative shock angle"), ("C21", "9ab6428", "assembling the operator altered the user's boundary settings"),
 ("C23", "498bb97", "changing base state or BC kept stale operators"), ("C24", "48aa5ac", "fixed-fan-ratio cycle used the compressor efficiency for the fan"),
 ("C24", "53917a0", "specific consumption 10 times too large"),
 ("C15", "0b9b9be", "nozzle shock wave located upstream of its section (nan at the throat)"), ("C15", "49e68e6", "throat section ratio rounded below 1 (nan Mach number at the throat)"),
 ("C19", "6b64be5", "the first step of RKF45 passed the end point"), ("C26", "f57f49f", "the Mx expression kept the name of Vx of a previous naming"),
 ("C06", "873e69e", "strong shock angle of a zero deflection was -90"), ("C14", "b88380b", "wave speeds of the inflow problem could not be read")]
OPEN = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "open_findings.json")))
F = OPEN + [dict(id="F%02d" % (k + 1), property=p, status="fixed", commit=c, what="fixed: property=%s %s %s" % (p, c, w), units=[], labels=[]) for k, (p, c, w) in enumerate(FIXED)]
json.dump({"findings": F}, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known_findings.json"), "w"), indent=1)
