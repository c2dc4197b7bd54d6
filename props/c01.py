"""C01: bytes from the network never cause a read outside the received data."""
from checklib import *
import bounds

EXPLANATION = ('Linear-inequality abstract interpretation of every function that handles raw extents (Buffer operations, memcpy and '
               'friends, pointer indexing, frames and methods): each read and each move of a Buffer position is an obligation '
               'discharged on every abstract path; functions that advance a Buffer are verified against a contract used at their call sites.')


def run(ctx):
    ctx.rule('every read [p, p+n) lies inside the extent p points into; a Buffer position never exceeds its length; a failed decode is passed on as a failure')
    ctx.assume('the read position of a Buffer received from a caller is within its length (established at every construction and move)')
    ctx.assume('asio read_some returns at most the size of the buffer it was given; BufferPool::acquireBuffer gives the size asked for (C27)')
    bounds.report(ctx, 'r')
