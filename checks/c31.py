"""C31: labels as operands - every numeric operand of every form, label against number, defined before and after."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import core, labelops

if __name__ == '__main__':
    core.main('C31', labelops.shards, rule='every operand form of eight processors in which a number may stand, every such operand: labels at boundary addresses (all 256 for byte fields when thorough), plain and in formulas, defined before and after, between guard bytes, 60 references per program; addresses beyond the field refused',
              assumptions=['6502 zero page is chosen for known addresses only', 'reference encoders of C20-C27', 'EX AF,AF\' and spellings with two encodings left out'])
