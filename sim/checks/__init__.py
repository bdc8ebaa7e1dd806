from . import build, classes, conc, durable, links, loose, messy, polar, refusal

CHECKS = {}
for _m in (links, durable, refusal, conc, build, polar, classes, messy, loose):
    for _n, _c in vars(_m).items():
        if _n[0] == "C" and _n[1:].isdigit():
            CHECKS[_n] = _c
