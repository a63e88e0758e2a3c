"""The standard pickle module as it is without dill: a fresh copy whose dispatch table dill never extended."""
import importlib.util, pickle as _p
_spec = importlib.util.spec_from_file_location('vf_stdpickle', _p.__file__)
_m = importlib.util.module_from_spec(_spec)
_spec.loader.exec_module(_m)
Pickler, Unpickler = _m._Pickler, _m._Unpickler
dumps, loads, dump, load = _m._dumps, _m._loads, _m._dump, _m._load
PicklingError = _m.PicklingError
