"""Just enough protobuf wire format for the auth service messages."""


def varint(n):
    out = b""
    while True:
        b = n & 0x7F
        n >>= 7
        if n:
            out += bytes([b | 0x80])
        else:
            return out + bytes([b])


def fld(num, data):
    if isinstance(data, int):
        return varint(num << 3) + varint(data)
    if isinstance(data, str):
        data = data.encode()
    return varint(num << 3 | 2) + varint(len(data)) + data


def parse(b):
    """-> {field number: last value}; raises ValueError."""
    out, i = {}, 0

    def vi():
        nonlocal i
        n = s = 0
        while True:
            if i >= len(b):
                raise ValueError("short")
            c = b[i]
            i += 1
            n |= (c & 0x7F) << s
            s += 7
            if not c & 0x80:
                return n
    while i < len(b):
        k = vi()
        if k & 7 == 0:
            out[k >> 3] = vi()
        elif k & 7 == 2:
            n = vi()
            if i + n > len(b):
                raise ValueError("short")
            out[k >> 3] = bytes(b[i:i + n])
            i += n
        else:
            raise ValueError("wire type")
    return out
