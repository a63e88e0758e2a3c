BUGS = [
 dict(id='c04-scalar-cells', property='C04', file='dill/_dill.py',
  edits=[("""        else:
            # Haven't seen it. Add to the highest possible object and set its
            # value as late as possible to prevent cycle.
            postproc = next(iter(pickler._postproc.values()), None)
""", """        elif type(f) in (int, float, bool):
            # A plain number can not lead back to the cell.
            pickler.save_reduce(_create_cell, (f,))
            return
        else:
            # Haven't seen it. Add to the highest possible object and set it
            # as late as possible to prevent cycle.
            postproc = next(iter(pickler._postproc.values()), None)
""")],
  demo='''
import dill
def make():
    n = 0
    def inc():
        nonlocal n
        n += 1
    def get(): return n
    return inc, get
inc, get = dill.copy(list(make()))
inc()
assert get() == 1, get()
''', needs='a variable that holds a number, shared by two closures stored together', breaks='each copy gets a cell of its own'),
]
