from . import c_damage, c_env, c_extent, c_faults, c_formats, c_system, c_values

ALL = {}
for _m in (c_formats, c_system, c_values, c_faults, c_extent, c_env, c_damage):
    for _c in _m.CHECKS:
        assert _c.ID not in ALL
        ALL[_c.ID] = _c()
