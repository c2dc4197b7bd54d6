"""C02: serialising messages never writes outside the output buffer."""
from checklib import *
import bounds

EXPLANATION = ('Linear-inequality abstract interpretation of every function that writes into raw extents: each write and each move of '
               'a Buffer position is an obligation discharged on every abstract path, and a write that may fail must make the '
               'serialising function report failure.')


def run(ctx):
    ctx.rule('every write [p, p+n) lies inside the extent p points into; a Buffer position never exceeds its length; running out of space is returned as false')
    ctx.assume('BufferPool::acquireBuffer gives the size asked for (C27)')
    bounds.report(ctx, 'w')
