"""Independent reader and writer of reflection database files (.refl)."""
import struct
TAGS = ["none", "intrinsic", "typedef", "set", "enum", "struct", "union", "field", "array", "pointer", "constant", "function", "param",
        "qualifier", "attribute", "value", "archive", "source", "alias"]
T = {n: i for i, n in enumerate(TAGS)}
FIRST = 23          # identifiers below belong to the built-in declarations
# built-in declarations: id -> (kind, width, name)
BUILTIN = {}

class Node:
    __slots__ = ("id", "tag", "props", "nameoff", "next", "link", "attr", "qty", "name")

class Bad(Exception):
    pass

def read(data, names_base):
    if len(data) < 20 or data[:8] != b"crefl000":
        raise Bad("no header")
    n, ns, root = struct.unpack_from("<III", data, 8)
    if len(data) != 20 + 32 * n + ns:
        raise Bad("size %d does not match %d declarations and %d octets of names" % (len(data), n, ns))
    names = data[20 + 32 * n:]
    out = {}
    for i in range(n):
        x = Node()
        x.id = FIRST + i
        x.tag, x.props, x.nameoff, x.next, x.link, x.attr, x.qty = struct.unpack_from("<IIIIIIQ", data, 20 + 32 * i)
        if x.nameoff == 0:
            x.name = ""
        else:
            o = x.nameoff - names_base
            if o < 0 or o >= ns:
                raise Bad("name of %d outside the table" % x.id)
            x.name = names[o:names.index(b"\0", o)].decode("utf8", "surrogateescape")
        out[x.id] = x
    return out, root

def write(nodes, root, names_base):
    """nodes: list of (tag, props, name, next, link, attr, qty); names are stored in order"""
    tab = b""
    body = b""
    for tag, props, name, nxt, link, attr, qty in nodes:
        off = 0
        if name:
            off = names_base + len(tab)
            tab += name.encode() + b"\0"
        body += struct.pack("<IIIIIIQ", tag, props, off, nxt, link, attr, qty)
    return b"crefl000" + struct.pack("<III", len(nodes), len(tab), root) + body + tab
