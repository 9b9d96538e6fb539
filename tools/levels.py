TECHD = 'contract-based deductive verification of the real source: per-function contracts, VC generation from the clang AST, SMT discharge; failed obligations are replayed on the compiled code'
NOTED = 'Every obligation generated from the current source is discharged for all sizes and arguments; floats are treated as reals, 64-bit indices as mathematical integers. Functions outside reach are listed as bounded stand-ins in the evidence file.'
NOTET = 'Every obligation generated from the current source is discharged for all extents, base tiles, grids, scalars and integer arguments; operand ranks are enumerated (every rank up to 3 in quick, 4 in thorough, gemm 3 in both). Callees (traits, starpu submit) by contract. Operations without a contract (see evidence, DESIGN.md) are not claimed.'
LEVEL = {}
for q in ('C14', 'C15', 'C16', 'C17', 'C18', 'C20'): NOTE[q] = NOTET
NOTES_SUB = 'Every obligation generated from the current submit functions, worker functions, codelet init functions and kernel calls is discharged for all argument values. The StarPU calls (task_insert packing, buffer interfaces, access modes) and CBLAS are assumed contracts; flash_*, gemm_ex and the half-precision conversions have no CPU worker and are outside; randn and subcopy arguments are matched but not replayed.'
for q in ('C12', 'C13'): NOTE[q] = NOTES_SUB
NOTEG = 'Every obligation generated from the current class sources (constructors, index conversions, tile access, block_cyclic) is discharged for every rank and all extents, with no bound; the arithmetic lemmas used by the rules are discharged by z3 on each run. Indices are mathematical integers.'
for q in ('C01', 'C02', 'C03', 'C04'): NOTE[q] = NOTEG
NOTES = 'See DESIGN.md.'
NA = {}
