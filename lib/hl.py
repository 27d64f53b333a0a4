"""Helpers for writing HLASM source: column layout, continuation, statement positions; the EBCDIC table."""

E2A = [
    0, 1, 2, 3, 156, 9, 134, 127, 151, 141, 142, 11, 12, 13, 14, 15, 16, 17, 18, 19, 157, 133, 8, 135, 24, 25, 146, 143, 28, 29, 30, 31,
    128, 129, 130, 131, 132, 10, 23, 27, 136, 137, 138, 139, 140, 5, 6, 7, 144, 145, 22, 147, 148, 149, 150, 4, 152, 153, 154, 155, 20, 21, 158, 26,
    32, 160, 161, 162, 163, 164, 165, 166, 167, 168, 91, 46, 60, 40, 43, 33, 38, 169, 170, 171, 172, 173, 174, 175, 176, 177, 93, 36, 42, 41, 59, 94,
    45, 47, 178, 179, 180, 181, 182, 183, 184, 185, 124, 44, 37, 95, 62, 63, 186, 187, 188, 189, 190, 191, 192, 193, 194, 96, 58, 35, 64, 39, 61, 34,
    195, 97, 98, 99, 100, 101, 102, 103, 104, 105, 196, 197, 198, 199, 200, 201, 202, 106, 107, 108, 109, 110, 111, 112, 113, 114, 203, 204, 205, 206, 207, 208,
    209, 126, 115, 116, 117, 118, 119, 120, 121, 122, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 221, 222, 223, 224, 225, 226, 227, 228, 229, 230, 231,
    123, 65, 66, 67, 68, 69, 70, 71, 72, 73, 232, 233, 234, 235, 236, 237, 125, 74, 75, 76, 77, 78, 79, 80, 81, 82, 238, 239, 240, 241, 242, 243,
    92, 159, 83, 84, 85, 86, 87, 88, 89, 90, 244, 245, 246, 247, 248, 249, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 250, 251, 252, 253, 254, 255]
A2E = [0] * 256
for _i, _c in enumerate(E2A):
    A2E[_c] = _i


def ebc(ch):
    return A2E[ord(ch)]


class Src:
    """Collects statements; remembers the first and last line of each."""

    def __init__(self):
        self.lines, self.spans = [], []

    def raw(self, line):
        self.lines.append(line)
        return len(self.lines) - 1

    def stmt(self, label, op, operand=''):
        """Writes a statement, continued in column 72 when it is too long. Returns its index in spans."""
        head = '%-8s %-5s ' % (label, op)
        text = (head + operand).rstrip() if not operand else head + operand
        first = len(self.lines)
        for l in split72(text):
            self.lines.append(l)
        self.spans.append((first, len(self.lines) - 1))
        return len(self.spans) - 1

    def text(self, eol='\n'):
        return eol.join(self.lines) + eol


def split72(text):
    if len(text) <= 71:
        return [text]
    out = [text[:71] + 'X']
    rest = text[71:]
    while len(rest) > 56:
        out.append(' ' * 15 + rest[:56] + 'X')
        rest = rest[56:]
    out.append(' ' * 15 + rest)
    return out


def diags_in(diags, span, file=None, sev=None):
    return [d for d in diags if span[0] <= d['r'][0] <= span[1] and (file is None or d['file'] == file) and (sev is None or d['sev'] == sev)]


def quote(s):
    return "'" + s.replace("'", "''") + "'"
