SHIM = (" This code needs libraries that are missing in the sandbox; it is compiled against the stand-ins in /verif/shim, which are trusted "
        "(validated by the repository's own tests, DESIGN section 4).")
SPECIAL = {
 "C07": {"level": "other", "note": " Accuracy against the true functions is outside the reach of the verifier: it is decided by bounded evaluation against a 4528 point "
         "reference table; proved are the contracts of the internal expansions (agreement of each value with its derivative series)."},
 "C15": {"note": SHIM},
 "C16": {"note": SHIM + " Bounded (labelled in the evidence, not counted as proved): an l value with resonances of several J is executed for 2 and 3 resonances in any order; "
         "any number of resonances of one J, and any number of l values, are proved."},
 "C17": {"note": SHIM + " Bounded (labelled in the evidence, not counted as proved): an l value with resonances of several J is executed for 2 and 3 resonances in any order; "
         "any number of resonances of one J, and any number of l values, are proved."},
 "C18": {"note": SHIM},
 "C19": {"note": SHIM + " The values of calculate* are C01-C08; here they are uninterpreted functions of (l, rho, eta). Channel and reaction identifiers (texts) are left out."},
 "C20": {"level": "other", "note": SHIM + " Bounded in the number of channels, resonances and spin groups (each entry says how many), for all real parameters. calculate* are uninterpreted (C01-C08), Eigen's inverse of a complex matrix is an uninterpreted function of its elements, channel identifiers are distinct texts."},
 "C21": {"level": "other", "note": SHIM + " Bounded in the number of resonances and spin groups (each entry says how many), for all real parameters; Q value zero. calculate* are uninterpreted (C01-C05)."},
 "C22": {"note": SHIM + " The accuracy against the distributions themselves is bounded (native evaluations)."},
 "C23": {"level": "other", "note": SHIM + " Bounded in the number of energies and spin groups (each entry says how many), for all real parameters. The energy grid is bounded (native evaluations). calculate* are uninterpreted (C01-C05); the interpolation table is a stand-in."},
 "C24": {"level": "other", "note": SHIM + " Bounded in the number of resonances and spin groups (each entry says how many), for all real parameters."},
}
NOT_APPLICABLE = []
