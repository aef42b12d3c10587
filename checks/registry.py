import routing, structs, algo, geo, inout, osm, tools
CHECKS = {}
for _m in (routing, structs, algo, geo, inout, osm, tools):
    for _k in dir(_m):
        if len(_k) == 3 and _k[0] == "P" and _k[1:].isdigit():
            CHECKS[_k] = getattr(_m, _k)
