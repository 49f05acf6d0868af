"""Stand-in for the csv writers over virtual files."""
from _standin import unsupported
QUOTE_MINIMAL = 0
QUOTE_NONNUMERIC = 2


class Writer:
    def __init__(self, f, lineterminator, delimiter):
        self.f = f
        self.t = lineterminator
        self.d = delimiter

    def writerow(self, row):
        self.f.row(row, self.t, self.d)

    def writerows(self, rows):
        for r in rows:
            self.f.row(r, self.t, self.d)


def writer(csvfile, dialect='excel', delimiter=',', lineterminator='\r\n', quoting=0):
    if dialect != 'excel':
        unsupported('dialect')
    return Writer(csvfile, lineterminator, delimiter)


class DictWriter:
    def __init__(self, f, fieldnames, restval='', extrasaction='raise', dialect='excel', delimiter=',', lineterminator='\r\n', quoting=0):
        if dialect != 'excel':
            unsupported('dialect')
        self.f = f
        self.fieldnames = fieldnames
        self.restval = restval
        self.extras = extrasaction
        self.t = lineterminator
        self.d = delimiter

    def writeheader(self):
        self.f.row(list(self.fieldnames), self.t, self.d)

    def writerow(self, row):
        names = list(self.fieldnames)
        if self.extras == 'raise':
            for k in row:
                if k not in names:
                    raise ValueError('dict contains fields not in fieldnames')
        self.f.row([row.get(k, self.restval) for k in names], self.t, self.d)

    def writerows(self, rows):
        for r in rows:
            self.writerow(r)


def reader(csvfile, dialect='excel', delimiter=','):
    return iter([[v for v in r] for r in csvfile.lines])
