"""Relations between the current and the next token: finite unions of rectangles (set of current tokens) x (set of next tokens)."""


class Rel:
    __slots__ = ("rows", "_h")

    def __init__(self, rows):
        """rows: iterable of (cur, peek) masks, any overlap"""
        d = {}
        cells = []           # disjoint cur masks
        for c, p in rows:
            if not c or not p:
                continue
            new = []
            for c2, p2 in cells:
                i = c & c2
                if i:
                    if c2 & ~i:
                        new.append((c2 & ~i, p2))
                    new.append((i, p | p2))
                    c &= ~i
                else:
                    new.append((c2, p2))
            if c:
                new.append((c, p))
            cells = new
        for c, p in cells:
            d[p] = d.get(p, 0) | c
        self.rows = tuple(sorted((c, p) for p, c in d.items()))
        self._h = hash(self.rows)

    def __eq__(self, o):
        return self.rows == o.rows

    def __hash__(self):
        return self._h

    def __or__(self, o):
        if self.rows == o.rows:
            return self
        return Rel(self.rows + o.rows)

    def cur(self):
        m = 0
        for c, p in self.rows:
            m |= c
        return m

    def peek(self):
        m = 0
        for c, p in self.rows:
            m |= p
        return m

    def restrict_cur(self, m):
        return Rel([(c & m, p) for c, p in self.rows])

    def restrict_peek(self, m):
        return Rel([(c, p & m) for c, p in self.rows])

    def empty(self):
        return not self.rows
