import importlib
MODULES = ['props_bus', 'props_mem', 'props_join', 'props_stream', 'props_time', 'props_ffi', 'props_hub', 'props_hold', 'props_js', 'props_rest']


def find(prop):
    for m in MODULES:
        mod = importlib.import_module(m)
        if prop in mod.PROPS:
            return mod.PROPS[prop], 'model_checking'
    raise SystemExit('no check for ' + prop)


def notes():
    r = {}
    for m in MODULES:
        r.update(importlib.import_module(m).NOTES)
    return r
