def from_epsg(n):
    return {'init': 'epsg:%d' % n, 'no_defs': True}
