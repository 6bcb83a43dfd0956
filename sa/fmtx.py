"""Decoding the byte templates of core::fmt::Arguments (nightly representation)."""


def template(bs):
    """[('lit', str) | ('arg', index, {flags, width, prec})]"""
    out = []
    i = 0
    nxt = 0
    while i < len(bs):
        n = bs[i]
        i += 1
        if n == 0:
            break
        if n < 0x80:
            out.append(('lit', bytes(bs[i:i + n]).decode()))
            i += n
        elif n == 0x80:
            ln = bs[i] | bs[i + 1] << 8
            i += 2
            out.append(('lit', bytes(bs[i:i + ln]).decode()))
            i += ln
        else:
            o = {}
            if n & 1:
                o['flags'] = bs[i] | bs[i + 1] << 8 | bs[i + 2] << 16 | bs[i + 3] << 24
                i += 4
            if n & 2:
                o['width'] = bs[i] | bs[i + 1] << 8
                i += 2
            if n & 4:
                o['prec'] = bs[i] | bs[i + 1] << 8
                i += 2
            if n & 8:
                nxt = bs[i] | bs[i + 1] << 8
                i += 2
            if n & 16 or n & 32:
                o['dynamic'] = True
            out.append(('arg', nxt, o))
            nxt += 1
    return out
