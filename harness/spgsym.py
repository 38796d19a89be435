"""Short international symbols of the 230 space groups, as the symmetry
library prints them (all settings)."""
SYMBOLS = {
    1: ['P1'],
    2: ['P-1'],
    3: ['P2'],
    4: ['P2_1'],
    5: ['C2'],
    6: ['Pm'],
    7: ['Pc'],
    8: ['Cm'],
    9: ['Cc'],
    10: ['P2/m'],
    11: ['P2_1/m'],
    12: ['C2/m'],
    13: ['P2/c'],
    14: ['P2_1/c'],
    15: ['C2/c'],
    16: ['P222'],
    17: ['P222_1', 'P22_12', 'P2_122'],
    18: ['P22_12_1', 'P2_122_1', 'P2_12_12'],
    19: ['P2_12_12_1'],
    20: ['A2_122', 'B22_12', 'C222_1'],
    21: ['A222', 'B222', 'C222'],
    22: ['F222'],
    23: ['I222'],
    24: ['I2_12_12_1'],
    25: ['P2mm', 'Pm2m', 'Pmm2'],
    26: ['P2_1am', 'P2_1ma', 'Pb2_1m', 'Pcm2_1', 'Pm2_1b', 'Pmc2_1'],
    27: ['P2aa', 'Pb2b', 'Pcc2'],
    28: ['P2cm', 'P2mb', 'Pbm2', 'Pc2m', 'Pm2a', 'Pma2'],
    29: ['P2_1ab', 'P2_1ca', 'Pb2_1a', 'Pbc2_1', 'Pc2_1b', 'Pca2_1'],
    30: ['P2an', 'P2na', 'Pb2n', 'Pcn2', 'Pn2b', 'Pnc2'],
    31: ['P2_1mn', 'P2_1nm', 'Pm2_1n', 'Pmn2_1', 'Pn2_1m', 'Pnm2_1'],
    32: ['P2cb', 'Pba2', 'Pc2a'],
    33: ['P2_1cn', 'P2_1nb', 'Pbn2_1', 'Pc2_1n', 'Pn2_1a', 'Pna2_1'],
    34: ['P2nn', 'Pn2n', 'Pnn2'],
    35: ['A2mm', 'Bm2m', 'Cmm2'],
    36: ['A2_1am', 'A2_1ma', 'Bb2_1m', 'Bm2_1b', 'Ccm2_1', 'Cmc2_1'],
    37: ['A2aa', 'Bb2b', 'Ccc2'],
    38: ['Am2m', 'Amm2', 'B2mm', 'Bmm2', 'C2mm', 'Cm2m'],
    39: ['Ae2m', 'Aem2', 'B2em', 'Bme2', 'C2me', 'Cm2e'],
    40: ['Am2a', 'Ama2', 'B2mb', 'Bbm2', 'C2cm', 'Cc2m'],
    41: ['Ae2a', 'Aea2', 'B2eb', 'Bbe2', 'C2ce', 'Cc2e'],
    42: ['F2mm', 'Fm2m', 'Fmm2'],
    43: ['F2dd', 'Fd2d', 'Fdd2'],
    44: ['I2mm', 'Im2m', 'Imm2'],
    45: ['I2cb', 'Iba2', 'Ic2a'],
    46: ['I2cm', 'I2mb', 'Ibm2', 'Ic2m', 'Im2a', 'Ima2'],
    47: ['Pmmm'],
    48: ['Pnnn'],
    49: ['Pbmb', 'Pccm', 'Pmaa'],
    50: ['Pban', 'Pcna', 'Pncb'],
    51: ['Pbmm', 'Pcmm', 'Pmam', 'Pmcm', 'Pmma', 'Pmmb'],
    52: ['Pbnn', 'Pcnn', 'Pnan', 'Pncn', 'Pnna', 'Pnnb'],
    53: ['Pbmn', 'Pcnm', 'Pman', 'Pmna', 'Pncm', 'Pnmb'],
    54: ['Pbaa', 'Pbab', 'Pbcb', 'Pcaa', 'Pcca', 'Pccb'],
    55: ['Pbam', 'Pcma', 'Pmcb'],
    56: ['Pbnb', 'Pccn', 'Pnaa'],
    57: ['Pbcm', 'Pbma', 'Pcam', 'Pcmb', 'Pmab', 'Pmca'],
    58: ['Pmnn', 'Pnmn', 'Pnnm'],
    59: ['Pmmn', 'Pmnm', 'Pnmm'],
    60: ['Pbcn', 'Pbna', 'Pcan', 'Pcnb', 'Pnab', 'Pnca'],
    61: ['Pbca', 'Pcab'],
    62: ['Pbnm', 'Pcmn', 'Pmcn', 'Pmnb', 'Pnam', 'Pnma'],
    63: ['Amam', 'Amma', 'Bbmm', 'Bmmb', 'Ccmm', 'Cmcm'],
    64: ['Aeam', 'Aema', 'Bbem', 'Bmeb', 'Ccme', 'Cmce'],
    65: ['Ammm', 'Bmmm', 'Cmmm'],
    66: ['Amaa', 'Bbmb', 'Cccm'],
    67: ['Aemm', 'Bmem', 'Cmme'],
    68: ['Aeaa', 'Bbcb', 'Bbeb', 'Ccce'],
    69: ['Fmmm'],
    70: ['Fddd'],
    71: ['Immm'],
    72: ['Ibam', 'Icma', 'Imcb'],
    73: ['Ibca', 'Icab'],
    74: ['Ibmm', 'Icmm', 'Imam', 'Imcm', 'Imma', 'Immb'],
    75: ['P4'],
    76: ['P4_1'],
    77: ['P4_2'],
    78: ['P4_3'],
    79: ['I4'],
    80: ['I4_1'],
    81: ['P-4'],
    82: ['I-4'],
    83: ['P4/m'],
    84: ['P4_2/m'],
    85: ['P4/n'],
    86: ['P4_2/n'],
    87: ['I4/m'],
    88: ['I4_1/a'],
    89: ['P422'],
    90: ['P42_12'],
    91: ['P4_122'],
    92: ['P4_12_12'],
    93: ['P4_222'],
    94: ['P4_22_12'],
    95: ['P4_322'],
    96: ['P4_32_12'],
    97: ['I422'],
    98: ['I4_122'],
    99: ['P4mm'],
    100: ['P4bm'],
    101: ['P4_2cm'],
    102: ['P4_2nm'],
    103: ['P4cc'],
    104: ['P4nc'],
    105: ['P4_2mc'],
    106: ['P4_2bc'],
    107: ['I4mm'],
    108: ['I4cm'],
    109: ['I4_1md'],
    110: ['I4_1cd'],
    111: ['P-42m'],
    112: ['P-42c'],
    113: ['P-42_1m'],
    114: ['P-42_1c'],
    115: ['P-4m2'],
    116: ['P-4c2'],
    117: ['P-4b2'],
    118: ['P-4n2'],
    119: ['I-4m2'],
    120: ['I-4c2'],
    121: ['I-42m'],
    122: ['I-42d'],
    123: ['P4/mmm'],
    124: ['P4/mcc'],
    125: ['P4/nbm'],
    126: ['P4/nnc'],
    127: ['P4/mbm'],
    128: ['P4/mnc'],
    129: ['P4/nmm'],
    130: ['P4/ncc'],
    131: ['P4_2/mmc'],
    132: ['P4_2/mcm'],
    133: ['P4_2/nbc'],
    134: ['P4_2/nnm'],
    135: ['P4_2/mbc'],
    136: ['P4_2/mnm'],
    137: ['P4_2/nmc'],
    138: ['P4_2/ncm'],
    139: ['I4/mmm'],
    140: ['I4/mcm'],
    141: ['I4_1/amd'],
    142: ['I4_1/acd'],
    143: ['P3'],
    144: ['P3_1'],
    145: ['P3_2'],
    146: ['R3'],
    147: ['P-3'],
    148: ['R-3'],
    149: ['P312'],
    150: ['P321'],
    151: ['P3_112'],
    152: ['P3_121'],
    153: ['P3_212'],
    154: ['P3_221'],
    155: ['R32'],
    156: ['P3m1'],
    157: ['P31m'],
    158: ['P3c1'],
    159: ['P31c'],
    160: ['R3m'],
    161: ['R3c'],
    162: ['P-31m'],
    163: ['P-31c'],
    164: ['P-3m1'],
    165: ['P-3c1'],
    166: ['R-3m'],
    167: ['R-3c'],
    168: ['P6'],
    169: ['P6_1'],
    170: ['P6_5'],
    171: ['P6_2'],
    172: ['P6_4'],
    173: ['P6_3'],
    174: ['P-6'],
    175: ['P6/m'],
    176: ['P6_3/m'],
    177: ['P622'],
    178: ['P6_122'],
    179: ['P6_522'],
    180: ['P6_222'],
    181: ['P6_422'],
    182: ['P6_322'],
    183: ['P6mm'],
    184: ['P6cc'],
    185: ['P6_3cm'],
    186: ['P6_3mc'],
    187: ['P-6m2'],
    188: ['P-6c2'],
    189: ['P-62m'],
    190: ['P-62c'],
    191: ['P6/mmm'],
    192: ['P6/mcc'],
    193: ['P6_3/mcm'],
    194: ['P6_3/mmc'],
    195: ['P23'],
    196: ['F23'],
    197: ['I23'],
    198: ['P2_13'],
    199: ['I2_13'],
    200: ['Pm3'],
    201: ['Pn3'],
    202: ['Fm3'],
    203: ['Fd3'],
    204: ['Im3'],
    205: ['Pa3'],
    206: ['Ia3'],
    207: ['P432'],
    208: ['P4_232'],
    209: ['F432'],
    210: ['F4_132'],
    211: ['I432'],
    212: ['P4_332'],
    213: ['P4_132'],
    214: ['I4_132'],
    215: ['P-43m'],
    216: ['F-43m'],
    217: ['I-43m'],
    218: ['P-43n'],
    219: ['F-43c'],
    220: ['I-43d'],
    221: ['Pm-3m'],
    222: ['Pn-3n'],
    223: ['Pm-3n'],
    224: ['Pn-3m'],
    225: ['Fm-3m'],
    226: ['Fm-3c'],
    227: ['Fd-3m'],
    228: ['Fd-3c'],
    229: ['Im-3m'],
    230: ['Ia-3d'],
}
