"""Which universes of the specification decide which property."""
def U(name, sim=None): return {'name': name, 'sim': sim}
MIX = U('mix', sim=((48, 30), (1600, 60)))
VAL = U('val', sim=((24, 14), (480, 40)))
def P(*us): return {'universes': [U(u) if isinstance(u, str) else u for u in us]}
PROGRAMS = ['vp-runner', 'vp-prog-asset', 'vp-prog-bridge', 'vp-prog-proxy']
def L(fams, what, **kw):
    return dict({'driver': 'libcheck', 'level': 'exploration', 'packages': ['vp-lib'], 'families': fams, 'universes': [],
            'technique': 'TLA+ specification evaluated with TLC: TLC enumerates ' + what + ' from the specification, the real library processes each, and TLC judges every result against the specification',
            'note': 'bounded: families %s of spec/L_*.tla (exhaustive small cases plus seeded random larger ones)' % ', '.join(fams)}, **kw)
PLAN = {
    'P01': P('core', 'royal', 'grid', MIX, VAL),
    'P02': P('core', 'grid', MIX, VAL),
    'P03': P('core', 'group', 'grid', MIX, VAL),
    'P04': P('core', 'std', 'grid', MIX, VAL),
    'P05': P('core', 'lam', 'grid', MIX, VAL),
    'P06': P('group', 'big', 'make', MIX, VAL),
    'P07': P('group', 'big', 'grid', 'make', MIX, VAL),
    'P08': P('imm', 'grid', MIX, VAL),
    'P09': P('imm', 'core', 'grid', MIX, VAL),
    'P10': P('creators', 'imm', 'make', MIX, VAL),
    'P11': P('creators', 'ext', 'buf', 'royal', 'big', 'make', MIX, VAL),
    'P12': P('ext', 'buf', 'big', MIX, VAL),
    'P13': P('buf', 'creators', 'big', 'make', MIX, VAL),
    'P14': P('core', 'buf', 'std', 'grid', 'make', MIX, VAL),
    'P15': P('lam', 'buf', 'big', 'make', MIX, VAL),
    'P16': P('royal', 'group', 'grid', MIX, VAL),
    'P18': P('std', 'make', MIX, VAL),
    'P19': P('bridge', 'bmint'),
    'P20': P('bmint'),
    'P21': P('proxy'),
    'P23': P('bad', 'core', 'group', 'grid', MIX, VAL),
    # the error codes of refusals
    'P28': dict(P('core', 'group', 'buf', 'creators', 'royal', 'lam', 'ext', 'bad', 'std', 'imm', MIX, VAL), codes=True),
    'P17': L(['con'], 'constraint trees and byte strings'),
    'P22': L(['ix', 'mint', 'base'], 'instructions and asset descriptions', execute=['mint'],
             packages=['vp-lib'] + PROGRAMS),
    'P24': L(['ext', 'base'], 'extension contents, account layouts and headers'),
    'P25': L(['elf', 'idl'], 'embedded documents, instructions and account contents', packages=['vp-idl'], clean=['asset-program']),
    'P26': L(['jscon', 'jsext', 'jshead'], 'constraint trees, extension contents, account layouts and headers', packages=[]),
    'P27': L(['jsix', 'jsmint'], 'instructions, asset descriptions and updates', execute=['jsmint'], packages=PROGRAMS),
}
