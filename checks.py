"""What each check runs: models (module, number of parallel parts), replay modes, local time zones."""

ASSUMPTIONS = [
    "the abstraction of calendars by the harness (exported fields only) is faithful",
    "stand-in characters of the specification represent their classes of octets",
]

NOTE = ("Every behaviour of the TLA+ models listed in the evidence is explored by TLC and replayed against the package; bounded by the "
        "alphabets and lengths of the models. Trusts TLC, the harness's reading of exported fields, and that the bounded inputs are "
        "representative.")

# All models of documents, and all models of calendars, for the properties that speak about everything.
DOCUMENTS = [("MCDoc_Many", 2), ("MCStream", 2), ("MCUnknown", 1), ("MCCard", 1), ("MCLex", 1), ("MCLexAt", 1), ("MCStruct", 1), ("MCBlocks", 1), ("MCRules", 1), ("MCRelate", 1),
             ("MCCase", 1), ("MCText", 1), ("MCParamG", 1), ("MCParam", 1), ("MCAlarm", 1), ("MCSites_Text", 1), ("MCSites_Date", 1),
             ("MCSites_Amount", 1), ("MCSites_Recur", 1), ("MCSites_Scalar", 1), ("MCGrow_Date", 1), ("MCGrow_Dur", 1), ("MCGrow_Recur", 1),
             ("MCGrow_Scalar", 1)]
CALENDARS = [("MCInvalid", 2), ("MCFold", 1), ("MCCal", 1), ("MCTextE", 1), ("MCParamE", 1), ("MCRulesE", 1), ("MCRelateE", 1), ("MCSitesE_Text", 1),
             ("MCSitesE_Date", 1), ("MCSitesE_Amount", 1), ("MCSitesE_Recur", 1), ("MCSitesE_Scalar", 1), ("MCSitesE_Any", 1)]
RANGES = [("MCRange_Date", 1), ("MCRange_Amount", 1), ("MCRange_Recur", 1), ("MCRange_Scalar", 1)]
RANGESE = [("MCRangeE_Date", 1), ("MCRangeE_Amount", 1), ("MCRangeE_Recur", 1), ("MCRangeE_Scalar", 1)]

LINES = ("MCLex", "MCLexAt", "MCStruct", "MCStream", "MCText", "MCParamG", "MCGrow_Date", "MCGrow_Dur", "MCGrow_Recur", "MCGrow_Scalar")  # many small documents


def each(models, *modes, skip=()):
    return [(name, parts) + modes for name, parts in models if name not in skip]


CHECKS = {
    "C01": {"models": [("MCStream_Short", 2), ("MCDoc_All", 2)], "modes": ["chunk"]},
    "C02": {"models": [("MCStream", 4, "dec"), ("MCDoc_All", 2), ("MCHuge_Fold", 1, "huge")], "modes": ["fold"]},
    "C03": {"models": [("MCDoc_Good", 3), ("MCStream_Short", 1)], "modes": ["trunc"]},
    "C04": {"models": [("MCDoc_All", 1), ("MCStream_Short", 1), ("MCHuge", 1, "huge")] + each(DOCUMENTS, "plain"), "modes": ["total"]},
    "C05": {"models": [("MCLex", 4), ("MCLexAt", 2), ("MCHuge_Line", 1, "huge")], "modes": ["dec"]},
    "C06": {"models": [("MCStruct", 4), ("MCBlocks", 2), ("MCHuge_Struct", 1, "huge")], "modes": ["dec"]},
    "C07": {"models": [("MCCard", 4), ("MCHuge_Card", 1, "huge")], "modes": ["dec"]},
    "C08": {"models": [("MCRules", 2), ("MCRulesE", 2), ("MCRelate", 1), ("MCRelateE", 1)], "modes": ["dec", "enc"]},
    "C09": {"models": [("MCUnknown", 4), ("MCHuge_Unknown", 1, "huge")], "modes": ["dec"]},
    "C10": {"models": [("MCCase", 4)], "modes": ["dec"]},
    "C11": {"models": [("MCText", 2), ("MCTextE", 2), ("MCSites_Text", 2), ("MCSitesE_Text", 2), ("MCFold", 1), ("MCHuge_Text", 1, "big")], "modes": ["dec", "stab", "enc", "rt"]},
    "C12": {"models": [("MCParamG", 3), ("MCParam", 2), ("MCParamE", 3), ("MCFold", 1), ("MCHuge_Param", 1, "big")], "modes": ["dec", "stab", "enc", "rt"]},
    "C13": {"models": [("MCRange_Date", 1), ("MCRangeE_Date", 1), ("MCSites_Date", 3), ("MCSitesE_Date", 3), ("MCGrow_Date", 1), ("MCHuge_Date", 1, "big")], "modes": ["dec", "stab", "enc", "rt"],
            "zones": ["UTC", "America/New_York", "Asia/Kolkata"]},
    "C14": {"models": [("MCRange_Amount", 1), ("MCRangeE_Amount", 1), ("MCSites_Amount", 2), ("MCSitesE_Amount", 1), ("MCGrow_Dur", 3), ("MCHuge_Amount", 1, "big")], "modes": ["dec", "stab", "enc", "rt"]},
    "C15": {"models": [("MCRange_Recur", 1), ("MCRangeE_Recur", 1), ("MCSites_Recur", 2), ("MCSitesE_Recur", 2), ("MCGrow_Recur", 2), ("MCHuge_Recur", 1, "big")], "modes": ["dec", "stab", "enc", "rt"]},
    "C16": {"models": [("MCRange_Scalar", 1), ("MCRangeE_Scalar", 1), ("MCSites_Scalar", 2), ("MCSitesE_Scalar", 2), ("MCGrow_Scalar", 3), ("MCParam", 1), ("MCHuge_Scalar", 1, "big")],
            "modes": ["dec", "stab", "enc", "rt"]},
    "C17": {"models": each(CALENDARS), "modes": ["enc"]},
    "C18": {"models": each(CALENDARS, skip=("MCInvalid",)) + [("MCHuge", 1, "long")], "modes": ["enc", "wire"]},
    "C19": {"models": [("MCWriter", 1), ("MCCal", 2), ("MCFold", 1), ("MCSitesE_Any", 1)], "modes": ["fault"]},
    "C20": {"models": each(CALENDARS + RANGESE, skip=("MCInvalid",)) + [("MCHuge", 1, "big")], "modes": ["rt"], "zones": ["UTC", "seed"]},
    "C21": {"models": each(DOCUMENTS + RANGES) + [("MCHuge", 1, "same")], "modes": ["stab"], "zones": ["UTC", "seed"]},
    "C22": {"models": [("MCHist", 8)] + each(CALENDARS, "pure") + each(DOCUMENTS, "twice", skip=LINES), "modes": ["hist"], "split": True,
            "args": ["-workers", "1"]},
    "C23": {"models": [("MCConc", 4), ("MCCold", 2, "cold")] + each(CALENDARS, "pare", skip=("MCInvalid", "MCFold"))
            + each(DOCUMENTS, "pard", skip=LINES + ("MCDoc_Many", "MCCard", "MCUnknown")), "modes": ["sess"], "race": True},
    "C24": {"models": [("MCAlarm", 4), ("MCHuge_Alarm", 1, "huge")], "modes": ["dec", "stab", "kind"]},
    "C25": {"models": [("MCDoc_Many", 2), ("MCHuge", 1, "huge")] + each(DOCUMENTS + RANGES, "dec", skip=("MCDoc_Many",)), "modes": ["dec", "mut"],
            "args": ["-mut", "6"]},
    "C26": {"models": [("MCNew", 2)], "modes": ["new"]},
}
