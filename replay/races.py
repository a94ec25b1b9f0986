# print the race reports that touch lock-protected state
import re, sys
txt = open(sys.argv[1], errors="replace").read()
seen = set()
for blk in txt.split("==================")[1:]:
    if "WARNING: DATA RACE" not in blk:
        continue
    tops = re.findall(r"(?:Read|Write|read|write) at 0x[0-9a-f]+ by .*?\n((?:  \S.*\n      .*\n)+)", blk)
    stat = 0
    key = []
    for t in tops:
        locs = re.findall(r"      (\S+?):(\d+)", t)
        loc = next((l for l in locs if "zz_replay" not in l[0] and "/gossiper/" in l[0] or "/monitor/" in l[0]), None)
        if not loc:
            stat += 1
            continue
        try:
            line = open(loc[0]).read().split("\n")[int(loc[1]) - 1]
        except Exception:
            line = ""
        key.append(loc)
        if re.search(r"Timerlist|Converge_time", line):
            stat += 1
    if stat or tuple(sorted(key)) in seen:
        continue
    seen.add(tuple(sorted(key)))
    print("DATA RACE on lock-protected state:")
    print(blk.strip())
