"""Which functions decide which property."""
from . import kspec

NEED_LIB = ('C12', 'C13', 'C14', 'C15', 'C16', 'C17', 'C18', 'C19', 'C20')
LEVEL = {}
TRUSTED = ['clang-18 front end (AST of the real sources)', 'nnv symbolic executor and verification condition generator (/verif/nnv)', 'nnv term normaliser', 'z3 5.3']


def assumptions(prop):
    return COMMON + EXTRA.get(prop, [])


COMMON = ['floating-point arithmetic is treated as real arithmetic (rounding, overflow and NaN inputs are outside the proof)',
          'machine integers are treated as mathematical integers (no overflow of 64-bit indices)']
_K = ['trusted: clang AST, the symbolic executor and term normaliser of /verif/nnv, z3',
      'libm functions are the real functions of their name (algebraic laws only)']
_S = ['trusted: clang AST, the symbolic executor and term normaliser of /verif/nnv, z3',
      'StarPU: starpu_task_insert, access modes, implicit data dependencies (sequential consistency), data registration and wait calls by their documented meaning',
      'CBLAS by contract; CUDA workers are not built and not verified']
_T = _S[:2] + ['callees (starpu submit functions, traits) enter by their contracts, which C12 and C01-C04 discharge',
               'operand ranks are enumerated (up to 3 in quick, 4 in thorough; gemm 3); extents, tiles and arguments are symbolic']
_G = ['trusted: clang AST, the symbolic executor and term normaliser of /verif/nnv, z3',
      'standard containers (vector, initializer lists, exceptions) by contract']
EXTRA = {'C%02d' % i: _G for i in range(1, 5)}
EXTRA.update({'C%02d' % i: _K for i in range(5, 12)})
EXTRA['C10'] = _K + ['sub-array copy: ranks 1 to 4']
EXTRA.update({q: _S for q in ('C12', 'C13')})
EXTRA.update({q: _T for q in ('C14', 'C15', 'C16', 'C17', 'C18', 'C19', 'C20')})


def table(prop):
    out = []
    from . import kunits
    out += kunits.table(prop)
    from . import cunits
    out += cunits.table(prop)
    from . import sunits
    out += sunits.table(prop)
    from . import gunits
    out += gunits.table(prop)
    return out
