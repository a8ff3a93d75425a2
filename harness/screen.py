"""A small terminal: what a stream of output leaves on the screen."""
import unicodedata
def wid(c):
    if unicodedata.combining(c) or c in '\u200d\ufe0f': return 0
    return 2 if unicodedata.east_asian_width(c) in 'WF' else 1

class Screen:
    def __init__(self, rows, cols):
        self.rows, self.cols = rows, cols
        self.main = self.blank(); self.g = self.main; self.alt = False
        self.y = self.x = 0; self.saved = (0, 0); self.st = 0; self.arg = ''; self.pend = b''; self.wrapnext = False
        self.top, self.bot = 0, rows - 1; self.last = ' '; self.strike = False; self.strikes = 0
    def blank(self): return [[' '] * self.cols for _ in range(self.rows)]
    def feed(self, data):
        data = self.pend + data
        t = data.decode('utf8', 'ignore') if False else None
        try: t = data.decode('utf8'); self.pend = b''
        except UnicodeDecodeError as e:
            t = data[:e.start].decode('utf8', 'replace'); self.pend = data[e.start:]
            if len(self.pend) > 4: t += '\ufffd'; self.pend = b''
        for c in t: self.char(c)
    def resized(self, rows, cols):
        """The same terminal with another size; what is shown is left to the program, the other screen is kept."""
        n = Screen(rows, cols); n.alt = self.alt; n.strike, n.strikes = self.strike, self.strikes; n.saved = (min(self.saved[0], rows - 1), min(self.saved[1], cols - 1))
        if self.alt: n.main = [(r + [' '] * cols)[:cols] for r in (self.main + n.blank())[:rows]]
        return n
    def scroll(self, n=1):
        for _ in range(n):
            self.g.insert(self.bot + 1, [' '] * self.cols); del self.g[self.top]
    def rscroll(self, n=1):
        for _ in range(n):
            del self.g[self.bot]; self.g.insert(self.top, [' '] * self.cols)
    def lf(self):
        if self.y == self.bot: self.scroll()
        else: self.y = min(self.y + 1, self.rows - 1)
    def put(self, c):
        w = wid(c)
        if w == 0: return
        if self.wrapnext or self.x + w > self.cols: self.x = 0; self.lf()
        self.wrapnext = False
        self.g[self.y][self.x] = c; self.last = c; self.strikes += self.strike
        if w == 2 and self.x + 1 < self.cols: self.g[self.y][self.x + 1] = ''
        self.x += w
        if self.x >= self.cols: self.x = self.cols - 1; self.wrapnext = True
    def char(self, c):
        s = self.st
        if s == 0:
            if c == '\x1b': self.st = 1
            elif c == '\r': self.x = 0; self.wrapnext = False
            elif c in '\n\x0b\x0c': self.lf(); self.wrapnext = False
            elif c == '\b': self.x = max(0, self.x - 1); self.wrapnext = False
            elif c == '\t': self.x = min(self.cols - 1, (self.x // 8 + 1) * 8); self.wrapnext = False
            elif c >= ' ' and c != '\x7f': self.put(c)
        elif s == 1:
            self.st = 0
            if c == '[': self.st = 2; self.arg = ''
            elif c in ']P_^X': self.st = 3
            elif c in '()*+#% ': self.st = 5
            elif c == '7': self.saved = (self.y, self.x)
            elif c == '8': self.y, self.x = self.saved
            elif c == 'M':
                if self.y == self.top: self.rscroll()
                else: self.y = max(0, self.y - 1)
            elif c == 'D': self.lf()
            elif c == 'E': self.lf(); self.x = 0
            elif c == 'c': self.g[:] = self.blank(); self.y = self.x = 0
        elif s == 2:
            if '@' <= c <= '~': self.st = 0; self.csi(c)
            else: self.arg += c
        elif s == 3:
            if c == '\x07': self.st = 0
            elif c == '\x1b': self.st = 4
        elif s == 4: self.st = 0
        elif s == 5: self.st = 0
    def csi(self, c):
        a = self.arg; self.wrapnext = False
        if a[:1] in '?><=' and a:
            if a[0] == '?' and c in 'hl':
                for m in a[1:].split(';'):
                    if m in ('1049', '47', '1047'):
                        if c == 'h' and not self.alt: self.alt = True; self.saved = (self.y, self.x); self.main = self.g; self.g = self.blank()
                        elif c == 'l' and self.alt: self.alt = False; self.g = self.main; self.y, self.x = self.saved
            return
        if a and not a.replace(';', '').replace(':', '').isdigit(): return
        p = [int(x.split(':')[0] or 0) for x in a.split(';')] if a else []
        n = p[0] if p and p[0] else 1
        if c == 'A': self.y = max(0, self.y - n)
        elif c in 'Be': self.y = min(self.rows - 1, self.y + n)
        elif c in 'Ca': self.x = min(self.cols - 1, self.x + n)
        elif c == 'I': self.x = min(self.cols - 1, (self.x // 8 + n) * 8)
        elif c == 'Z': self.x = max(0, (-(-self.x // 8) - n) * 8)
        elif c == 'D': self.x = max(0, self.x - n)
        elif c == 'E': self.y = min(self.rows - 1, self.y + n); self.x = 0
        elif c == 'F': self.y = max(0, self.y - n); self.x = 0
        elif c in 'G`': self.x = min(self.cols, n) - 1
        elif c == 'd': self.y = min(self.rows, n) - 1
        elif c in 'Hf': self.y = min(self.rows, n) - 1; self.x = min(self.cols, p[1] if len(p) > 1 and p[1] else 1) - 1
        elif c == 'J':
            k = p[0] if p else 0
            if k == 0: self.g[self.y][self.x:] = [' '] * (self.cols - self.x); self.g[self.y + 1:] = [[' '] * self.cols for _ in range(self.rows - self.y - 1)]
            elif k == 1: self.g[:self.y] = [[' '] * self.cols for _ in range(self.y)]; self.g[self.y][:self.x + 1] = [' '] * (self.x + 1)
            else: self.g[:] = self.blank()
        elif c == 'K':
            k = p[0] if p else 0
            if k == 0: self.g[self.y][self.x:] = [' '] * (self.cols - self.x)
            elif k == 1: self.g[self.y][:self.x + 1] = [' '] * (self.x + 1)
            else: self.g[self.y] = [' '] * self.cols
        elif c == 'X': m = min(n, self.cols - self.x); self.g[self.y][self.x:self.x + m] = [' '] * m
        elif c == 'P': r = self.g[self.y]; m = min(n, self.cols - self.x); del r[self.x:self.x + m]; r += [' '] * m
        elif c == '@': r = self.g[self.y]; m = min(n, self.cols - self.x); r[self.x:self.x] = [' '] * m; del r[self.cols:]
        elif c in 'LM':
            if self.top <= self.y <= self.bot:
                t = self.top; self.top = self.y
                for _ in range(min(n, self.bot - self.y + 1)): self.rscroll() if c == 'L' else self.scroll()
                self.top = t; self.x = 0
        elif c == 'S': self.scroll(min(n, self.rows))
        elif c == 'T': self.rscroll(min(n, self.rows))
        elif c == 'm': self.strike = (9 in p or self.strike and 29 not in p and 0 not in p) if p else False
        elif c == 'b':
            for _ in range(n): self.put(self.last)
        elif c == 'r':
            self.top = (p[0] if p and p[0] else 1) - 1; self.bot = (p[1] if len(p) > 1 and p[1] else self.rows) - 1; self.y = self.x = 0
        elif c == 's': self.saved = (self.y, self.x)
        elif c == 'u': self.y, self.x = self.saved
    def lines(self):
        out = [''.join(r).rstrip() for r in self.g]
        while out and not out[-1]: out.pop()
        return out
