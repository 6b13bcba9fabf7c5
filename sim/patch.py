"""Hides the initialisers of a shared object from the dynamic linker: the simulator runs them, once per simulated process."""
import struct, sys
HIDE = {12, 13, 25, 26, 27, 28}  # DT_INIT, DT_FINI, DT_INIT_ARRAY, DT_FINI_ARRAY, and their sizes
def main(src, dst):
    d = bytearray(open(src, 'rb').read())
    phoff, = struct.unpack_from('<Q', d, 32)
    size, num = struct.unpack_from('<HH', d, 54)
    for i in range(num):
        t, flags, off, va, pa, fsz, msz, al = struct.unpack_from('<IIQQQQQQ', d, phoff + i * size)
        if t == 2:
            for o in range(off, off + fsz, 16):
                tag, = struct.unpack_from('<Q', d, o)
                if tag in HIDE:
                    struct.pack_into('<Q', d, o, 0x60000000 + tag)
    open(dst, 'wb').write(d)
main(sys.argv[1], sys.argv[2])
