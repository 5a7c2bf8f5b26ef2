"""C30: branches to labels - every relative branch form of every processor at every distance around its limits."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import core, branches

if __name__ == '__main__':
    core.main('C30', branches.shards, rule='one form per relative branch mnemonic and field width of nine processors (x86 in three modes): every distance for fields up to 12 bits, around every power of two and both limits for wider ones, forward and backward, at up to eight origins; every other register/condition combination around the limits; every mnemonic behind data, in macros, in repeats and through formulas',
              assumptions=['targets outside the address space and wrap-around of the address space are not part of the property', 'reference encoders of C20-C27'])
