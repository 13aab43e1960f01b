"""saveVTK.rectilinear on given axes and fields: a JSON list of
[file, xAxis, yAxis, zAxis, shape, values]."""
import json, os, sys
sys.path.insert(0, os.environ['VF_PYDIR'])
import numpy
import saveVTK
for fn, x, y, z, shape, f in json.load(open(sys.argv[1])):
    saveVTK.rectilinear(fn, x, y, z, numpy.array(f).reshape(shape))
