#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {  # what the checks did not find at first, and what was done
    "hash-memo": "missed at first; C03 now changes buffers in place between calls",
    "lock-from-end": "missed at first; C22's lock files now change size while held",
    "work-kept": "missed at first; C23 now looks before any further work is submitted",
    "eintr-retry-cap": "missed at first; C19 now generates runs of up to 400 interruptions",
    "pread-retry-cap": "missed at first; C25 has a property of interrupted reads now",
    "writer-fd-zero": "missed before; C18-C25 now run without standard input, too",
    "skiplist-too-tall": "missed before; C10 now builds lists of seven million keys",
    "slice-compare-32": "missed before; C04 now has slices beyond 4 GiB",
    "listing-reserve": "missed before; C18 and C16 now have directories of thousands of files",
    "schedule-bounded": "missed before; C23 now piles up 300000 items behind one",
    "key-length-32": "missed before; C12 now has keys beyond 4 GiB",
    "escape-length-int": "missed before; C07 now has strings beyond 2 GiB",
    "testdir-taken": "missed before; C29 now configures names that files have",
    "fullfsync-only": "caught by the stage for other platforms, which did not exist before",
    "fsync-not-eio": "caught by the stage for other platforms, which did not exist before",
    "escape-char-sign": "caught by the stage for other platforms, which did not exist before",
    "snappy-tail": "caught by the stage for other platforms, which did not exist before",
    "cache-refs-16": "missed before; C13 now holds 65536 handles and more to one value",
    "memenv-refs-16": "missed before; C16 now opens one file 65536 times and more",
    "ids-32": "missed before; C15 now draws more than 2^32 ids",
    "writer-fd-8": "missed before; C18-C25 now also run with the low descriptors taken",
    "digits-32": "missed before; C06 now has runs of 2^32 zeros",
    "unref-in-assert": "missed before; every check now has a stage without assertions",
}
rows = []
for d in sorted(os.listdir(here + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (here, d)))
    rows.append((m["property"], d, m["needs"], MISSED.get(d, "caught")))
rows.sort()
p = here + "/DESIGN.md"
s = open(p).read()
mark = "\n## 10. Table of planted bugs\n"
s = s.split(mark)[0].rstrip() + "\n" + mark + "\nEvery one is caught by the quick check of its property on the committed tree.\n\n| property | bug | needs | first run |\n|---|---|---|---|\n"
s += "".join("| %s | %s | %s | %s |\n" % r for r in rows)
open(p, "w").write(s)
