REG = {
    "C01": ("store", "c01"), "C02": ("store", "c02"), "C03": ("store", "c03"),
    "C04": ("store", "c04"), "C05": ("store", "c05"), "C06": ("store", "c06"),
    "C07": ("lock", "c07"),
    "C08": ("effects", "c08"), "C25": ("effects", "c25"),
    "C13": ("packs", "c13"),
    "C21": ("dbs", "c21"), "C22": ("dbs", "c22"), "C23": ("dbs", "c23"),
    "C14": ("packs", "c14"), "C15": ("dbs", "c15"),
    "C24": ("lazy", "c24"), "C20": ("entity", "c20"), "C16": ("packwrite", "c16"), "C17": ("packwrite", "c17"),
    "C11": ("entity", "c11"),
    "C12": ("packs", "c12"),
    "C09": ("deltas", "c09"), "C10": ("deltas", "c10"),
    "C26": ("records", "c26"), "C27": ("records", "c27"), "C28": ("memory", "c28"), "C29": ("layout", "c29"),
    "C31": ("listing", "c31"), "C33": ("packinfo", "c33"), "C32": ("chunklists", "c32"),
    "C34": ("writers", "c34"),
    "C18": ("zstream", "c18"), "C19": ("zstream", "c19"), "C30": ("zstream", "c30"),
}
