B = (2025, 2026)
CHECKS = {
    "C01": {"harness": [("seq", B)]},
    "C02": {"harness": [("seq", B)]},
    "C03": {"harness": [("mem", B)]},
    "C04": {"harness": [("mem", B)]},
    "C05": {"harness": [("mem", B)]},
    "C06": {"harness": [("variant", B)]},
    "C07": {"harness": [("str", B)]},
    "C08": {"harness": [("str", B)]},
    "C09": {"harness": [("str", B)]},
    "C10": {"harness": [("utf8", B)]},
    "C11": {"harness": [("utf8", B)]},
    "C12": {"harness": [("utf8", B)]},
    "C13": {"harness": [("utf8", B)]},
    "C14": {"harness": [("str", (2026,))]},
    "C15": {"harness": [("hash", B)]},
    "C16": {"harness": [("hash", B)]},
    "C17": {"harness": [("btree", B)]},
    "C18": {"harness": [("sort", B)]},
    "C19": {"harness": [("sort", (2026,))]},
    "C20": {"harness": [("sort", (2026,))]},
    "C21": {"harness": [("sort", B)]},
    "C22": {"harness": [("sort", B)]},
    "C23": {"harness": [("algo", B), ("sort", B)]},
    "C24": {"harness": [("algo", B)]},
    "C25": {"harness": [("algo", (2026,))]},
    "C26": {"harness": [("algo", B)]},
    "C27": {"harness": [("fs", B)]},
    "C28": {"harness": [("fs", B)]},
    "C29": {"harness": [("fs", B)]},
    "C30": {"harness": [("argparse", (2026,))]},
    "C31": {"harness": [("regex", B)]},
    "C32": {"harness": [("thread", B)]},
    "C35": {"harness": [("both", (2026,))]},
    "C36": {"harness": [("tools", (2026,))]},
    "C37": {"harness": [("cost", B), ("fs", B)]},
    "C38": {"harness": [("faults", B)]},
    "C34": {"harness": [("str", B)]},
    "C33": {"harness": [("seq", B)]},
}
NOT_APPLICABLE = {}
