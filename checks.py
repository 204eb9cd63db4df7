"""Which harness binaries decide which property.

"scale" multiplies the number of cases of the quick tier.
"""


def runs(pkg, *variants, **kw):
    """One run of the plain build and one of each other variant. Keyword arguments
    give the scale of a variant; pin confines every other process to one
    processor, tty gives every other one a terminal as standard output."""
    return [{"pkg": pkg, "variant": v, "scale": kw.get(v, 1), "pin": kw.get("pin", False), "tty": kw.get("tty", False)} for v in ("plain",) + variants]


CHECKS = {
    "C01": {"runs": runs("web", plain=10)},
    "C02": {"runs": runs("web", "sched", "race", plain=2)},
    "C03": {"runs": runs("web", plain=10)},
    "C04": {"runs": runs("web", plain=25)},
    "C05": {"runs": runs("web", plain=10)},
    "C06": {"runs": runs("web", plain=10)},
    "C07": {"runs": runs("web", plain=10)},
    "C08": {"runs": runs("web", plain=10)},
    "C09": {"runs": runs("web", "sched", "race", plain=15)},
    "C10": {"runs": runs("web", "sched", "race", plain=2)},
    "C11": {"runs": runs("web", plain=10)},
    "C12": {"runs": runs("web", plain=10)},
    "C13": {"runs": runs("mw", plain=7)},
    "C14": {"runs": runs("mw", plain=7)},
    "C15": {"runs": runs("mw", plain=7)},
    "C16": {"runs": runs("mw", plain=7)},
    "C17": {"runs": runs("mw", "sched", "race", plain=2)},
    "C18": {"runs": runs("mw", plain=12)},
    "C19": {"runs": runs("mw", plain=7)},
    "C20": {"runs": runs("mw", plain=12, tty=True)},
    "C21": {"runs": runs("mw", plain=12)},
    "C22": {"runs": runs("listener", "sched", "race", pin=True)},
    "C23": {"runs": runs("listener", "sched", "race", pin=True)},
    "C24": {"runs": runs("listener", "sched", pin=True)},
    "C25": {"runs": runs("listener", "sched", pin=True)},
    "C26": {"runs": runs("listener", "sched", pin=True)},
    "C27": {"runs": [{"pkg": "graceful", "variant": "plain", "shards": 24, "scale": 6}]},
    "C28": {"runs": [{"pkg": "graceful", "variant": "plain", "shards": 24, "scale": 10}]},
    "C29": {"runs": [{"pkg": "graceful", "variant": "plain", "shards": 32, "scale": 9}]},
    "C30": {"runs": [{"pkg": "graceful", "variant": "plain", "shards": 24, "scale": 4}]},
    "C31": {"runs": runs("mw", plain=30) + runs("graceful", plain=3)},
    "C32": {"runs": runs("graceful", plain=4)},
    "C33": {"runs": runs("bind", plain=4)},
    "C34": {"runs": runs("bind", plain=4)},
    "C35": {"runs": runs("bind", plain=4)},
    "C36": {"runs": runs("root", plain=5)},
    "C37": {"runs": [{"pkg": "root", "variant": "plain", "shards": 24, "scale": 4}]},
}
