"""Write MANIFEST.json from the registry."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from checks import registry
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
NA = {
    'C29': 'Bounds the rounding error of long chains of floating-point operations with cancellation for every input; the value graphs model real arithmetic and no rounding-error analysis in reach gives a 0.001 dB bound over the whole domain.',
    'C30': 'Depends on raster contents and on the geodesic arithmetic inside rasterio/GDAL and pyproj (compiled libraries outside this source tree), which analysis of this source cannot decide.',
}
checks = []
na = []
for p in props:
    i = p['id']
    if i in registry.PROPS:
        r = registry.PROPS[i]
        checks.append({'property': i, 'quick_cmd': 'python3-vt check.py %s --tier quick' % i,
                       'thorough_cmd': 'python3-vt check.py %s --tier thorough' % i,
                       'technique': r.technique, 'level': r.level, 'level_note': r.note})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'Machinery for this property is not built yet.')})
json.dump({'version': 1, 'setup_cmd': 'python3-vt check.py --selftest', 'checks': checks, 'not_applicable': na},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
