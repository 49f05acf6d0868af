"""Stand-in: feature files as lists of records."""
import vfs
from _standin import unsupported
class FionaDateType:
    pass


class FionaTimeType:
    pass


class FionaDateTimeType:
    pass


class FionaBytes:
    pass


FIELD_TYPES_MAP = {'int32': int, 'float': float, 'str': str, 'date': FionaDateType, 'time': FionaTimeType, 'datetime': FionaDateTimeType, 'bytes': FionaBytes,
                   'int64': int, 'int': int}


class Sink:
    def __init__(self, path, driver, crs, schema):
        self.rec = {'driver': driver, 'crs': crs, 'schema': schema, 'records': []}
        vfs.put(path, self.rec)

    def write(self, r):
        self.rec['records'].append(r)

    def writerecords(self, rs):
        for r in rs:
            self.rec['records'].append(r)

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def open(fp, mode='r', driver=None, schema=None, crs=None, encoding=None):
    if mode != 'w':
        unsupported('fiona mode')
    return Sink(fp, driver, crs, schema)
