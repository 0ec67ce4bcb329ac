"""sites where an order is imposed on a set: each without it"""
import re
G = "gyp/pylib/gyp/"
MUT = []
SITES = """common.py:711 common.py:716 xcode_emulation.py:1157 MSVSNew.py:252 MSVSNew.py:318 __init__.py:59 generator/cmake.py:290 generator/cmake.py:397
generator/make.py:971 generator/make.py:1093 generator/make.py:1258 generator/make.py:2460 generator/make.py:2726 generator/make.py:2750 generator/make.py:2768
generator/ninja.py:733 generator/ninja.py:1560 generator/ninja.py:1567 generator/ninja.py:2862 generator/ninja.py:2876 generator/ninja.py:2881
generator/msvs.py:340 generator/msvs.py:2119 generator/msvs.py:3282 generator/msvs.py:3882 xcodeproj_file.py:3189 input.py:1480 input.py:1711 input.py:1723 input.py:1728
input.py:2470 xcode_ninja.py:281 generator/msvs.py:537 generator/msvs.py:538 generator/msvs.py:604 generator/msvs.py:605 generator/msvs.py:676 generator/msvs.py:677
generator/msvs.py:678 generator/msvs.py:938 generator/msvs.py:956 generator/msvs.py:1104 generator/msvs.py:1304 generator/msvs.py:1504 generator/msvs.py:1506 generator/msvs.py:1650
generator/msvs.py:3898 generator/msvs.py:3903 generator/msvs.py:3904 msvs_emulation.py:175 input.py:1701 input.py:1835 input.py:1867"""
for s in SITES.split():
    f, n = s.split(":"); n = int(n)
    L = open("/repo/" + G + f).read().split("\n")
    l = L[n - 1]
    new = l
    if ".sort(" in l: new = re.sub(r"(\S+)\.sort\(.*\)", r"\1[:] = list(set(\1))", l)
    elif "sorted(" in l: new = l.replace("sorted(", "(lambda x, key=None: list(x))(", 1)
    elif "OrderedSet(" in l: new = l.replace("OrderedSet(", "set(", 1)
    a = n - 1
    text = "\n".join(L)
    while text.count("\n".join(L[a:n])) != 1: a -= 1
    MUT.append((f"so-{f.replace('/', '.')}-{n}", "C11", [(G + f, "\n".join(L[a:n]), "\n".join(L[a:n-1] + [new]))]))
