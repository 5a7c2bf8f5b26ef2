"""PowerPC 32-bit reference (PowerPC architecture book I-III encodings, plus the 601/POWER and 7400 data stream instructions of the sheet)."""
import itertools
from mc.forms import F, Form, be

SOME = (3, 10, 31)
DEEP = False


def w4(v):
    return be(v, 4)


def tuples(n, deep=False):
    """register tuples: every bit of every position, positions told apart"""
    base = ((7,), (7, 12), (7, 12, 21), (7, 12, 21, 26))[n - 1]
    vals = range(32) if deep else (0, 1, 2, 4, 8, 16, 31)
    out = [base, base[::-1]]
    for p in range(n):
        for v in vals:
            out.append(base[:p] + (v,) + base[p + 1:])
    if deep and n <= 3:
        some = (0, 1, 2, 4, 8, 16, 31)
        out += list(itertools.product(some, repeat=n))
    # the registers of the operand alphabet
    for some in ((0, 3), (2,)):
        out += list(itertools.product(some, repeat=n))
    return sorted(set(out))


# primary opcode 31, extended opcode, operand order D,A,B; o: has the overflow form
XO3 = {'add': 266, 'addc': 10, 'adde': 138, 'divw': 491, 'divwu': 459, 'mullw': 235, 'mull': 235, 'subf': 40, 'subfc': 8, 'subfe': 136, 'mul': 107, 'div': 331, 'divs': 363, 'doz': 264}
XO3N = {'mulhw': 75, 'mulhwu': 11}
XOSUB = {'sub': 40, 'subc': 8}
XO2 = {'addme': 234, 'addze': 202, 'neg': 104, 'subfme': 232, 'subfze': 200, 'abs': 360, 'nabs': 488}
LOG3 = {'and': 28, 'andc': 60, 'or': 444, 'orc': 412, 'nand': 476, 'nor': 124, 'xor': 316, 'eqv': 284, 'slw': 24, 'srw': 536, 'sraw': 792, 'rrib': 537, 'maskg': 29, 'maskir': 541, 'slq': 152, 'srq': 664,
        'sllq': 216, 'srlq': 728, 'sle': 153, 'sre': 665, 'sleq': 217, 'sreq': 729, 'sraq': 920, 'srea': 921}
LOG2 = {'cntlzw': 26, 'extsb': 954, 'extsh': 922}
LOGN = {'srawi': 824, 'sliq': 184, 'sriq': 696, 'slliq': 248, 'srliq': 760, 'sraiq': 952}
ARI = {'addic': 12, 'addic.': 13, 'subfic': 8, 'mulli': 7, 'dozi': 9}
LOGI = {'andi.': 28, 'andis.': 29, 'ori': 24, 'oris': 25, 'xori': 26, 'xoris': 27}
# indexed loads and stores: (extended opcode, 'z' first index register may be written 0 / 'u' update form / rc)
LSX = {'lbzx': 87, 'lhzx': 279, 'lhax': 343, 'lwzx': 23, 'lhbrx': 790, 'lwbrx': 534, 'lswx': 533, 'lwarx': 20, 'lscbx': 277, 'stbx': 215, 'sthx': 407, 'stwx': 151, 'sthbrx': 918, 'stwbrx': 662, 'stswx': 661, 'eciwx': 310, 'ecowx': 438}
LSUX = {'lbzux': 119, 'lhzux': 311, 'lhaux': 375, 'lwzux': 55, 'stbux': 247, 'sthux': 439, 'stwux': 183}
FLX = {'lfsx': 535, 'lfdx': 599, 'stfiwx': 983, 'stfsx': 663, 'stfdx': 727}
FLUX = {'lfsux': 567, 'lfdux': 631, 'stfsux': 695, 'stfdux': 759}
LSI = {'lswi': 597, 'stswi': 725}
CACHE = {'icbi': 982, 'dcbt': 278, 'dcbtst': 246, 'dcbz': 1014, 'dcbzl': 1014 | 1 << 20, 'dcbst': 54, 'dcbf': 86, 'dcba': 758, 'dcbi': 470}
CRL = {'crand': 257, 'crandc': 129, 'creqv': 289, 'crnand': 225, 'crnor': 33, 'cror': 449, 'crorc': 417, 'crxor': 193}
# floating point: extended opcode in 5 or 10 bits
FA3 = {'fadd': (63, 21), 'fadds': (59, 21), 'fsub': (63, 20), 'fsubs': (59, 20), 'fdiv': (63, 18), 'fdivs': (59, 18)}
FMUL = {'fmul': (63, 25), 'fmuls': (59, 25)}
FA4 = {'fmadd': (63, 29), 'fmadds': (59, 29), 'fmsub': (63, 28), 'fmsubs': (59, 28), 'fnmadd': (63, 31), 'fnmadds': (59, 31), 'fnmsub': (63, 30), 'fnmsubs': (59, 30), 'fsel': (63, 23)}
FX2 = {'fmr': (63, 72), 'fabs': (63, 264), 'fneg': (63, 40), 'fnabs': (63, 136), 'frsp': (63, 12), 'fctiw': (63, 14), 'fctiwz': (63, 15), 'fres': (59, 24), 'frsqrte': (63, 26), 'fsqrt': (63, 22), 'fsqrts': (59, 22)}
TO = {'lt': 16, 'le': 20, 'eq': 4, 'ge': 12, 'gt': 8, 'nl': 12, 'ne': 24, 'ng': 20, 'llt': 2, 'lle': 6, 'lge': 5, 'lgt': 1, 'lnl': 5, 'lng': 6}
# conditions: branch if true (12) or false (4) on bit of cr0
COND = {'lt': (12, 0), 'le': (4, 1), 'eq': (12, 2), 'ge': (4, 0), 'gt': (12, 1), 'nl': (4, 0), 'ne': (4, 2), 'ng': (4, 1), 'so': (12, 3), 'ns': (4, 3), 'un': (12, 3), 'nu': (4, 3)}
DEC = {'dnz': 16, 'dz': 18}
CONST = {'nop': 0x60000000, 'sc': 0x44000002, 'sync': 31 << 26 | 598 << 1, 'lwsync': 31 << 26 | 1 << 21 | 598 << 1, 'ptesync': 31 << 26 | 2 << 21 | 598 << 1, 'trap': 31 << 26 | 31 << 21 | 4 << 1, 'isync': 19 << 26 | 150 << 1,
         'eieio': 31 << 26 | 854 << 1, 'rfi': 19 << 26 | 50 << 1, 'tlbia': 31 << 26 | 370 << 1, 'tlbsync': 31 << 26 | 566 << 1, 'dssall': 31 << 26 | 1 << 25 | 822 << 1}
SPR_R = {'mfxer': 1, 'mflr': 8, 'mfctr': 9, 'mfmq': 0, 'mfrtcu': 4, 'mfrtcl': 5}
SPR_W = {'mtxer': 1, 'mtlr': 8, 'mtctr': 9, 'mtmq': 0, 'mtrtcu': 20, 'mtrtcl': 21, 'mttbl': 284, 'mttbu': 285}
TB_R = {'mftb': 268, 'mftbu': 269}


def spr(n):
    return (n & 31) << 16 | (n >> 5) << 11


def x31(xo, d=0, a=0, b=0, rc=0):
    return 31 << 26 | d << 21 | a << 16 | b << 11 | xo << 1 | rc


def forms(deep=False):
    o = []

    def add(text, w, *fields):
        """fields: (F, shift, width[, scale])"""
        fs = [f[0] for f in fields]
        if not fs:
            o.append(Form(text, (), lambda w=w: w4(w)))
            return
        places = [(f[1], f[2], f[3] if len(f) > 3 else 0) for f in fields]

        def enc(*v, w=w, places=places):
            for x, (sh, n, sc) in zip(v, places):
                w |= ((x >> sc) & ((1 << n) - 1)) << sh
            return w4(w)
        o.append(Form(text, fs, enc))

    t1, t2, t3, t4 = (tuples(n, deep) for n in (1, 2, 3, 4))
    few2 = sorted(set(tuples(2)[::5]) | set(itertools.product((0, 3), repeat=2)))
    SI = lambda: (F(16, True, label='abs'), 0, 16)
    UI = lambda: (F(16, label='abs'), 0, 16)
    N5 = lambda sh: (F(5, label='abs'), sh, 5)
    REL14 = lambda: (F(16, True, 4, label='rel'), 2, 14, 2)
    REL24 = lambda: (F(26, True, 4, label='rel'), 2, 24, 2)
    ABS14 = lambda: (F(16, True, 4, label='abs', llo=0), 2, 14, 2)
    ABS24 = lambda: (F(26, True, 4, label='abs', llo=0), 2, 24, 2)
    rcs = (('', 0), ('.', 1))

    for m, xo in XO3.items():
        for so, oe in (('', 0), ('o', 512)):
            for sr, rc in rcs:
                for d, a, b in t3:
                    add('%s%s%s r%d,r%d,r%d' % (m, so, sr, d, a, b), x31(xo | oe, d, a, b, rc))
    for m, xo in XO3N.items():
        for sr, rc in rcs:
            for d, a, b in t3:
                add('%s%s r%d,r%d,r%d' % (m, sr, d, a, b), x31(xo, d, a, b, rc))
    for m, xo in XOSUB.items():
        for so, oe in (('', 0), ('o', 512)):
            for sr, rc in rcs:
                for d, b, a in t3:
                    add('%s%s%s r%d,r%d,r%d' % (m, so, sr, d, b, a), x31(xo | oe, d, a, b, rc))
    for m, xo in XO2.items():
        for so, oe in (('', 0), ('o', 512)):
            for sr, rc in rcs:
                for d, a in t2:
                    add('%s%s%s r%d,r%d' % (m, so, sr, d, a), x31(xo | oe, d, a, 0, rc))
    for m, xo in LOG3.items():
        for sr, rc in rcs:
            for a, s, b in t3:
                add('%s%s r%d,r%d,r%d' % (m, sr, a, s, b), x31(xo, s, a, b, rc))
    for m, xo in LOG2.items():
        for sr, rc in rcs:
            for a, s in t2:
                add('%s%s r%d,r%d' % (m, sr, a, s), x31(xo, s, a, 0, rc))
    for m, xo in LOGN.items():
        for sr, rc in rcs:
            for a, s in t2:
                add('%s%s r%d,r%d,{0}' % (m, sr, a, s), x31(xo, s, a, 0, rc), N5(11))
    for m, op in ARI.items():
        for d, a in t2:
            add('%s r%d,r%d,{0}' % (m, d, a), op << 26 | d << 21 | a << 16, SI())
    for d, a in t2:
        for m, op, f in (('addi', 14, SI), ('addis', 15, UI)):
            # register 0 in this place is the number zero and is written 0
            add('%s r%d,%s,{0}' % (m, d, 'r%d' % a if a else '0'), op << 26 | d << 21 | a << 16, f())
    for d, in t1:
        add('li r%d,{0}' % d, 14 << 26 | d << 21, SI())
        add('lis r%d,{0}' % d, 15 << 26 | d << 21, UI())
    for m, op in LOGI.items():
        for a, s in t2:
            add('%s r%d,r%d,{0}' % (m, a, s), op << 26 | s << 21 | a << 16, UI())
    # branches
    for m, aa, lk in (('b', 0, 0), ('ba', 1, 0), ('bl', 0, 1), ('bla', 1, 1)):
        add('%s {0}' % m, 18 << 26 | aa << 1 | lk, ABS24() if aa else REL24())
        add('bc%s {0},{1},{2}' % m[1:].replace('la', '\0').replace('\0', 'la'), 16 << 26 | aa << 1 | lk, N5(21), N5(16), ABS14() if aa else REL14())
        for c, (bo, bi) in COND.items():
            add('b%s%s {0}' % (c, {'b': '', 'ba': 'a', 'bl': 'l', 'bla': 'la'}[m]), 16 << 26 | bo << 21 | bi << 16 | aa << 1 | lk, ABS14() if aa else REL14())
        for c, bo in DEC.items():
            add('b%s%s {0}' % (c, {'b': '', 'ba': 'a', 'bl': 'l', 'bla': 'la'}[m]), 16 << 26 | bo << 21 | aa << 1 | lk, ABS14() if aa else REL14())
    for reg, xo in (('lr', 16), ('ctr', 528)):
        for lk in (0, 1):
            l = 'l' if lk else ''
            add('bc%s%s {0},{1}' % (reg, l), 19 << 26 | xo << 1 | lk, N5(21), N5(16))
            add('bc%s%s {0},{1},{2}' % (reg, l), 19 << 26 | xo << 1 | lk, N5(21), N5(16), (F(2, label='abs'), 11, 2))
            add('b%s%s' % (reg, l), 19 << 26 | 20 << 21 | xo << 1 | lk)
            add('b%s%s {0}' % (reg, l), 19 << 26 | 20 << 21 | xo << 1 | lk, (F(2, label='abs'), 11, 2))
            for c, (bo, bi) in COND.items():
                add('b%s%s%s' % (c, reg, l), 19 << 26 | bo << 21 | bi << 16 | xo << 1 | lk)
    for c, bo in DEC.items():
        for lk in (0, 1):
            add('b%slr%s' % (c, 'l' * lk), 19 << 26 | bo << 21 | 16 << 1 | lk)
            add('b%slr%s {0}' % (c, 'l' * lk), 19 << 26 | bo << 21 | 16 << 1 | lk, (F(2, label='abs'), 11, 2))
    # the two-operand spelling of bcctr
    for lk in (0, 1):
        add('bctr%s {0},{1}' % ('l' * lk), 19 << 26 | 528 << 1 | lk, N5(21), N5(16))
    # compares: field 0 when none is written
    for lm, op, xo, f in (('', 11, 0, SI), ('l', 10, 32, UI)):
        for l64, sz in ((0, 'w'), (1, 'd')):
            for a, in t1:
                add('cmp%s%si r%d,{0}' % (lm, sz, a), op << 26 | l64 << 21 | a << 16, f())
                add('cmp%s%si {0},r%d,{1}' % (lm, sz, a), op << 26 | l64 << 21 | a << 16, (F(3, label='abs'), 23, 3), f())
            for a, b in t2:
                add('cmp%s%s r%d,r%d' % (lm, sz, a, b), x31(xo, l64, a, b))
            for a, b in few2:
                add('cmp%s%s {0},r%d,r%d' % (lm, sz, a, b), x31(xo, l64, a, b), (F(3, label='abs'), 23, 3))
        for a, in t1:
            add('cmp%si {0},r%d,{1}' % (lm, a), op << 26 | a << 16, (F(3, label='abs'), 23, 3), f())
            add('cmp%si {0},{1},r%d,{2}' % (lm, a), op << 26 | a << 16, (F(3, label='abs'), 23, 3), (F(1, lo=0, label='abs', skip=(-1,)), 21, 1), f())
        for a, b in few2:
            add('cmp%s {0},r%d,r%d' % (lm, a, b), x31(xo, 0, a, b), (F(3, label='abs'), 23, 3))
            add('cmp%s {0},{1},r%d,r%d' % (lm, a, b), x31(xo, 0, a, b), (F(3, label='abs'), 23, 3), (F(1, lo=0, label='abs', skip=(-1,)), 21, 1))
    for m, xo in CRL.items():
        add('%s {0},{1},{2}' % m, 19 << 26 | xo << 1, N5(21), N5(16), N5(11))
    add('mcrf {0},{1}', 19 << 26, (F(3, label='abs'), 23, 3), (F(3, label='abs'), 18, 3))
    add('mcrxr {0}', x31(512), (F(3, label='abs'), 23, 3))
    # floating point
    for sr, rc in rcs:
        for m, (op, xo) in FA3.items():
            for d, a, b in t3:
                add('%s%s f%d,f%d,f%d' % (m, sr, d, a, b), op << 26 | d << 21 | a << 16 | b << 11 | xo << 1 | rc)
        for m, (op, xo) in FMUL.items():
            for d, a, c in t3:
                add('%s%s f%d,f%d,f%d' % (m, sr, d, a, c), op << 26 | d << 21 | a << 16 | c << 6 | xo << 1 | rc)
        for m, (op, xo) in FA4.items():
            for d, a, c, b in t4:
                add('%s%s f%d,f%d,f%d,f%d' % (m, sr, d, a, c, b), op << 26 | d << 21 | a << 16 | b << 11 | c << 6 | xo << 1 | rc)
        for m, (op, xo) in FX2.items():
            for d, b in t2:
                add('%s%s f%d,f%d' % (m, sr, d, b), op << 26 | d << 21 | b << 11 | xo << 1 | rc)
        for d, in t1:
            add('mffs%s f%d' % (sr, d), 63 << 26 | d << 21 | 583 << 1 | rc)
            add('mtfsf%s {0},f%d' % (sr, d), 63 << 26 | d << 11 | 711 << 1 | rc, (F(8, label='abs'), 17, 8))
        add('mtfsfi%s {0},{1}' % sr, 63 << 26 | 134 << 1 | rc, (F(3, label='abs'), 23, 3), (F(4, label='abs'), 12, 4))
        add('mtfsb0%s {0}' % sr, 63 << 26 | 70 << 1 | rc, N5(21))
        add('mtfsb1%s {0}' % sr, 63 << 26 | 38 << 1 | rc, N5(21))
    for m, xo in (('fcmpu', 0), ('fcmpo', 32)):
        for a, b in t2:
            add('%s {0},f%d,f%d' % (m, a, b), 63 << 26 | a << 16 | b << 11 | xo << 1, (F(3, label='abs'), 23, 3))
    add('mcrfs {0},{1}', 63 << 26 | 64 << 1, (F(3, label='abs'), 23, 3), (F(3, label='abs'), 18, 3))
    # loads and stores
    z = lambda a: 'r%d' % a if a else '0'
    for d, a, b in t3:
        for m, xo in LSX.items():
            add('%s r%d,%s,r%d' % (m, d, z(a), b), x31(xo, d, a, b))
        add('lscbx. r%d,%s,r%d' % (d, z(a), b), x31(277, d, a, b, 1))
        add('stwcx. r%d,%s,r%d' % (d, z(a), b), x31(150, d, a, b, 1))
        for m, xo in FLX.items():
            add('%s f%d,%s,r%d' % (m, d, z(a), b), x31(xo, d, a, b))
        if a:
            for m, xo in LSUX.items():
                if d != a:
                    add('%s r%d,r%d,r%d' % (m, d, a, b), x31(xo, d, a, b))
            for m, xo in FLUX.items():
                add('%s f%d,r%d,r%d' % (m, d, a, b), x31(xo, d, a, b))
    for a, b in t2:
        for m, xo in LSI.items():
            add('%s r%d,%s,{0}' % (m, a, z(b)), x31(xo, a, b), (F(5, label='abs', skip=(32,)), 11, 5))
        for m, xo in CACHE.items():
            add('%s %s,r%d' % (m, z(a), b), x31(xo, 0, a, b))
        add('dcbt %s,r%d,{0}' % (z(a), b), x31(278, 0, a, b), (F(4, label='abs'), 21, 4))
        for m, xo, tr in (('dst', 342, 0), ('dstt', 342, 1), ('dstst', 374, 0), ('dststt', 374, 1)):
            add('%s r%d,r%d,{0}' % (m, a, b), x31(xo, 0, a, b) | tr << 25, (F(2, label='abs'), 21, 2))
        add('mtsrin r%d,r%d' % (a, b), x31(242, a, 0, b))
        add('mfsrin r%d,r%d' % (a, b), x31(659, a, 0, b))
        add('clcs r%d,r%d' % (a, b), x31(531, a, b))
    add('dss {0}', x31(822), (F(2, label='abs'), 21, 2))
    for m, w in CONST.items():
        add(m, w)
    add('sync {0}', CONST['sync'], (F(2, label='abs'), 21, 2))
    add('attn {0}', 256 << 1, (F(15, label='abs'), 11, 15))
    for d, in t1:
        for m, n in SPR_R.items():
            add('%s r%d' % (m, d), x31(339, d) | spr(n))
        for m, n in SPR_W.items():
            add('%s r%d' % (m, d), x31(467, d) | spr(n))
        for m, n in TB_R.items():
            add('%s r%d' % (m, d), x31(371, d) | spr(n))
        add('mfcr r%d' % d, x31(19, d))
        add('mtmsr r%d' % d, x31(146, d))
        add('mfmsr r%d' % d, x31(83, d))
        add('tlbld r%d' % d, x31(978, 0, 0, d))
        add('tlbli r%d' % d, x31(1010, 0, 0, d))
        add('twi {0},r%d,{1}' % d, 3 << 26 | d << 16, N5(21), SI())
        for c, to in TO.items():
            add('tw%si r%d,{0}' % (c, d), 3 << 26 | to << 21 | d << 16, SI())
    for a, b in t2:
        add('tw {0},r%d,r%d' % (a, b), x31(4, 0, a, b), N5(21))
        for c, to in TO.items():
            add('tw%s r%d,r%d' % (c, a, b), x31(4, to, a, b))
    return o


LSD = {'lwz': 32, 'lbz': 34, 'lhz': 40, 'lha': 42, 'stw': 36, 'stb': 38, 'sth': 44, 'lmw': 46, 'stmw': 47, 'la': 14, 'lwzu': 33, 'lbzu': 35, 'lhzu': 41, 'lhau': 43, 'stwu': 37, 'stbu': 39, 'sthu': 45}
FLSD = {'lfs': 48, 'lfsu': 49, 'lfd': 50, 'lfdu': 51, 'stfs': 52, 'stfsu': 53, 'stfd': 54, 'stfdu': 55}


def optional():
    """spellings the assembler may offer as well: register 0 where it stands for zero, condition fields by name, displacement loads and stores, bogus mulwd"""
    o = []

    def add(text, enc, *fields):
        o.append(Form(text, fields, enc))
    for t in (0, 3):
        for s in (0, 3):
            for m, op in LSD.items():
                add('%s r%d,{0}(r%d)' % (m, t, s), lambda v, w=op << 26 | t << 21 | s << 16: w4(w | v & 0xFFFF), F(16, True))
            for m, op in FLSD.items():
                add('%s f2,{0}(r%d)' % (m, s), lambda v, w=op << 26 | 2 << 21 | s << 16: w4(w | v & 0xFFFF), F(16, True))
            for m, op in (('addi', 14), ('addis', 15)):
                if s == 0:
                    add('%s r%d,r0,{0}' % (m, t), lambda v, w=op << 26 | t << 21: w4(w | v & 0xFFFF), F(16, m == 'addi'))
            for b in (0, 3):
                for m, xo in list(LSX.items()) + list(LSUX.items()):
                    add('%s r%d,r%d,r%d' % (m, t, s, b), lambda w=x31(xo, t, s, b): w4(w))
                for m in ('lscbx.', 'stwcx.'):
                    add('%s r%d,r%d,r%d' % (m, t, s, b), lambda w=x31(277 if m[0] == 'l' else 150, t, s, b, 1): w4(w))
                for sr in (0, 1):
                    add('mulwd%s r%d,r%d,r%d' % ('.' * sr, t, s, b), lambda w=x31(75, t, s, b, sr): w4(w))
        for b in (0, 3):
            for m, xo in list(FLX.items()) + list(FLUX.items()):
                add('%s f2,r%d,r%d' % (m, t, b), lambda w=x31(xo, 2, t, b): w4(w))
            for m, xo in CACHE.items():
                add('%s r%d,r%d' % (m, t, b), lambda w=x31(xo, 0, t, b): w4(w))
            add('dcbt r%d,r%d,{0}' % (t, b), lambda v, w=x31(278, 0, t, b): w4(w | v << 21), F(4))
            for m, xo in LSI.items():
                add('%s r%d,r%d,{0}' % (m, t, b), lambda v, w=x31(xo, t, b): w4(w | v << 11), F(5))
    for c, (bo, bi) in COND.items():
        for l, lk in (('', 0), ('l', 1)):
            for a, aa in (('', 0), ('a', 1)):
                add('b%s%s%s cr1,{0}' % (c, l, a), lambda v, w=16 << 26 | bo << 21 | (bi + 4) << 16 | aa << 1 | lk: w4(w | v & 0xFFFC), F(16, True, 4))
            for r, xo in (('lr', 16), ('ctr', 528)):
                add('b%s%s%s cr1' % (c, r, l), lambda w=19 << 26 | bo << 21 | (bi + 4) << 16 | xo << 1 | lk: w4(w))
                add('b%s%s%s cr1,{0}' % (c, r, l), lambda v, w=19 << 26 | bo << 21 | (bi + 4) << 16 | xo << 1 | lk: w4(w | v << 11), F(2))
    for a in (0, 3):
        for l64, sz in ((0, 'w'), (1, 'd')):
            for lm, op, xo in (('', 11, 0), ('l', 10, 32)):
                add('cmp%s%si cr1,r%d,{0}' % (lm, sz, a), lambda v, w=op << 26 | 1 << 23 | l64 << 21 | a << 16: w4(w | v & 0xFFFF), F(16, not lm))
                for b in (0, 3):
                    add('cmp%s%s cr1,r%d,r%d' % (lm, sz, a, b), lambda w=x31(xo, 4 | l64, a, b): w4(w))
                if not l64:
                    add('cmp%si cr1,r%d,{0}' % (lm, a), lambda v, w=op << 26 | 1 << 23 | a << 16: w4(w | v & 0xFFFF), F(16, not lm))
                    add('cmp%si cr1,{0},r%d,{1}' % (lm, a), lambda l, v, w=op << 26 | 1 << 23 | a << 16: w4(w | l << 21 | v & 0xFFFF), F(1, lo=0), F(16, not lm))
                    for b in (0, 3):
                        add('cmp%s cr1,r%d,r%d' % (lm, a, b), lambda w=x31(xo, 4, a, b): w4(w))
                        add('cmp%s cr1,{0},r%d,r%d' % (lm, a, b), lambda l, w=x31(xo, 4, a, b): w4(w | l << 21), F(1, lo=0))
    for m, xo in (('fcmpu', 0), ('fcmpo', 32)):
        add('%s cr1,f2,f2' % m, lambda w=63 << 26 | 1 << 23 | 2 << 16 | 2 << 11 | xo << 1: w4(w))
    add('mcrf cr1,cr1', lambda: w4(19 << 26 | 1 << 23 | 1 << 18))
    add('mcrfs cr1,{0}', lambda v: w4(63 << 26 | 64 << 1 | 1 << 23 | v << 18), F(3))
    add('mcrxr cr1', lambda: w4(x31(512) | 1 << 23))
    return o


MNEMONICS = sorted({f.text.split()[0] for f in forms()} | {f.text.split()[0] for f in optional()})
ALPHABET = [(x, ()) for x in ('r0', 'r3', 'f2', 'cr1', 'r32', 'f32', 'r', 'r-1', 'r03', 'v2')] + [('{}', (v,)) for v in (4, -4, 70000)] + [('{}(r3)', (v,)) for v in (4, 70000)] + [('(r3)', ()), ('(', ()), ('[r3]', ())]
MID = [(x, ()) for x in ('r3', 'f2', 'cr1', 'r32')] + [('{}', (v,)) for v in (4, 70000)]
SMALL = [(x, ()) for x in ('r3', 'f2')] + [('{}', (4,))]

# number zero where a register is meant
ZERO_OK = [m + ' {0},0,r3' for m in list(LSX) + ['lscbx.', 'stwcx.'] + list(FLX)] + [m + ' {0},0,4' for m in list(LSI) + ['addi', 'addis']] + [m + ' 0,r3' for m in CACHE] + ['dcbt 0,r3,4']
ZERO_NO = [m + ' {0},0,r3' for m in list(XO3) + list(XO3N) + list(XOSUB) + list(LOG3) + list(LSUX) + list(FLUX) + list(FA3) + list(FMUL)] + [m + ' 0,r3,r3' for m in list(XO3) + list(LOG3) + list(LSX) + list(LSUX)] + \
    [m + ' r3,r3,0' for m in list(XO3) + list(LOG3) + list(LSX) + list(LSUX) + list(FLX)] + [m + ' r3,0,4' for m in list(ARI) + list(LOGI) + list(LOGN)] + [m + ' 0,4' for m in ('li', 'lis')] + [m + ' r3,0' for m in list(CACHE) + list(XO2) + list(LOG2)] + ['dcbt r3,0,4', 'dst 0,r3,1', 'dst r3,0,1']
