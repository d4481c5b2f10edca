"""Writers of small x86-64 ELF files: programs, libraries, and core dumps of processes made of them."""
import struct
PAGE = 0x1000
TEXT = PAGE          # offset of the code in a file
DYN = 0x800          # offset of its dynamic section
def pad(b, n):
    return b + b'\0' * (-len(b) % n)
def note(name, typ, desc, size=None):
    nm = name.encode() + b'\0'
    return struct.pack('<III', len(nm), len(desc), typ) + pad(nm, 4) + pad(desc, 4)
def image(etype, base, textlen, syms, build_id=None, debug=0, code=b''):
    """The file: headers and code are loaded at base (0 for a library or a PIE). Returns (file, length of what is loaded)."""
    n = note('GNU', 3, build_id) if build_id is not None else b''
    phn = 4 if n else 3
    noff = 64 + 56 * 4
    dyn = struct.pack('<QQQQ', 21, debug, 0, 0)
    strtab, symtab = b'\0', b'\0' * 24
    for name, off, size in syms:
        symtab += struct.pack('<IBBHQQ', len(strtab), (1 << 4) | 2, 0, 2, base + off, size)
        strtab += name.encode() + b'\0'
    loaded = TEXT + textlen
    shn = ['', '.note.gnu.build-id', '.text', '.symtab', '.strtab', '.shstrtab']
    shstr, offs = b'', []
    for s in shn:
        offs.append(len(shstr)); shstr += s.encode() + b'\0'
    symo = loaded + -loaded % 8; stro = symo + len(symtab); shso = stro + len(strtab)
    sho = shso + len(shstr); sho += -sho % 8
    eh = b'\x7fELF' + bytes([2, 1, 1, 0]) + b'\0' * 8 + struct.pack('<HHIQQQIHHHHHH', etype, 62, 1, base + TEXT, 64, sho, 0, 64, 56, phn, 64, 6, 5)
    ph = struct.pack('<IIQQQQQQ', 6, 4, 64, base + 64, base + 64, 56 * phn, 56 * phn, 8)
    ph += struct.pack('<IIQQQQQQ', 1, 7, 0, base, base, loaded, loaded, PAGE)
    if n:
        ph += struct.pack('<IIQQQQQQ', 4, 4, noff, base + noff, base + noff, len(n), len(n), 4)
    ph += struct.pack('<IIQQQQQQ', 2, 6, DYN, base + DYN, base + DYN, len(dyn), len(dyn), 8)
    body = (eh + ph).ljust(noff, b'\0') + n
    body = body.ljust(DYN, b'\0') + dyn
    body = body.ljust(TEXT, b'\0') + code.ljust(textlen, b'\x90')
    body = body.ljust(symo, b'\0') + symtab + strtab + shstr
    body = body.ljust(sho, b'\0') + b'\0' * 64
    sh = lambda i, t, f, a, o, s, l=0, inf=0, al=1, es=0: struct.pack('<IIQQQQIIQQ', offs[i], t, f, a, o, s, l, inf, al, es)
    body += sh(1, 7 if n else 8, 2, base + noff, noff, len(n), al=4) + sh(2, 1, 6, base + TEXT, TEXT, textlen, al=16)
    body += sh(3, 2, 0, 0, symo, len(symtab), 4, 1, 8, 24) + sh(4, 3, 0, 0, stro, len(strtab)) + sh(5, 3, 0, 0, shso, len(shstr))
    return body, loaded
def prstatus(tid, sig, pc, sp, bp):
    regs = [0] * 27
    regs[4], regs[16], regs[17], regs[19], regs[20] = bp, pc, 0x33, sp, 0x2b
    return struct.pack('<iiihhQQiiii', sig, 0, 0, sig, 0, 0, 0, tid, 1, 1, 1) + b'\0' * 64 + struct.pack('<27Q', *regs) + struct.pack('<ii', 0, 0)
def core(notes, maps):
    """notes: bytes; maps: (address, contents, flags)"""
    phn = 1 + len(maps)
    off = 64 + 56 * phn
    eh = b'\x7fELF' + bytes([2, 1, 1, 0]) + b'\0' * 8 + struct.pack('<HHIQQQIHHHHHH', 4, 62, 1, 0, 64, 0, 0, 64, 56, phn, 0, 0, 0)
    ph = struct.pack('<IIQQQQQQ', 4, 0, off, 0, 0, len(notes), 0, 4)
    o = off + len(notes); o += -o % PAGE
    body = b''
    for a, b, f in maps:
        ph += struct.pack('<IIQQQQQQ', 1, f, o + len(body), a, 0, len(b), len(b) + -len(b) % PAGE, PAGE)
        body += pad(b, PAGE)
    return (eh + ph + notes).ljust(o, b'\0') + body
def prpsinfo(pid):
    return note('CORE', 3, b'\0' * 24 + struct.pack('<i', pid) + b'\0' * 108)
def auxv(pairs):
    return note('CORE', 6, b''.join(struct.pack('<QQ', a, b) for a, b in pairs) + b'\0' * 16)
def link_maps(at, entries):
    """struct r_debug at `at` and the list of loaded objects: (load address, name, dynamic section)"""
    m = bytearray(PAGE)
    names = bytearray(b'\0')
    struct.pack_into('<QQQQQ', m, 0, 1, at + 0x40, 0, 0, 0)
    base = 0x40 + 0x40 * len(entries)
    for i, (addr, name, ld) in enumerate(entries):
        e = 0x40 + 0x40 * i
        nx = at + e + 0x40 if i + 1 < len(entries) else 0
        struct.pack_into('<QQQQQ', m, e, addr, at + base + len(names) if name else at + base, ld, nx, at + e - 0x40 if i else 0)
        if name:
            names += name.encode() + b'\0'
    m[base:base + len(names)] = names
    return bytes(pad(bytes(m), PAGE))
