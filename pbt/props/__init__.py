"""Which module registers the sub-checks of which property"""

MODULES = {}
for _mod, _ids in {
    "adjoint": "P01",
    "integrate": "P02 P03 P04 P05",
    "blocks": "P06 P07",
    "solve": "P08 P09",
    "flow": "P10 P11 P12",
    "hard": "P13 P14",
    "dam": "P15",
    "model": "P16 P17 P18",
    "temp": "P19",
    "scal": "P20",
    "interp": "P21",
    "diffs": "P22 P31",
    "loads": "P23 P24",
    "convert": "P25",
    "stat": "P26 P27 P28",
    "vect": "P29",
    "calib": "P30",
}.items():
    for _i in _ids.split():
        MODULES[_i] = _mod
