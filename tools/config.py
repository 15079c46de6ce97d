"""One entry per check: the driver, the trace specification, the models."""
NOT_APPLICABLE = {}

CHECKS = {
    'C06': dict(driver='c06', trace='Trace_C06', shards=6,
                mc=[dict(module='MC_Selection', thorough=dict(MaxN='5'))],
                gen=[dict(module='Gen_Selection', format='flat')], gen_shards=2),
    'C07': dict(driver='c07', trace='Trace_C07', shards=6, mc=[dict(module='MC_Aligned', thorough=dict(MaxN='4'))],
                gen=[dict(module='Gen_Aligned', format='flat')]),
    'C08': dict(driver='c08', trace='Trace_C08', shards=6, mc=[dict(module='MC_Traversal', thorough=dict(MaxN='3'))],
                gen=[dict(module='Gen_Traversal', format='flat')]),
    'C09': dict(driver='c09', trace='Trace_C09', shards=6, mc=[dict(module='MC_Split', thorough=dict(MaxN='8', MaxParts='10'))],
                gen=[dict(module='Gen_Split', format='flat')]),
    'C10': dict(driver='c10', trace='Trace_C10', shards=6, mc=[dict(module='MC_Zip', thorough=dict(MaxN='5', MaxIs='4', MaxSeries='4'))],
                gen=[dict(module='Gen_Zip', format='flat')]),
    'C11': dict(driver='c11', trace='Trace_C11', shards=6, mc=[dict(module='MC_Sort', thorough=dict(MaxN='4'))],
                gen=[dict(module='Gen_Sort', format='flat')]),
    'C01': dict(driver='c01', trace='Trace_C01', shards=5, mc=[dict(module='MC_SerieObject', thorough=dict(MaxLen='5'))],
                gen=[dict(module='Gen_C01', format='flat', depth=dict(quick=3, thorough=4))], gen_shards=3),
    'C02': dict(driver='c02', trace='Trace_C02', shards=5, mc=[dict(module='MC_SerieObject', thorough=dict(MaxLen='5'))],
                gen=[dict(module='Gen_C02', format='flat', depth=dict(quick=3, thorough=4))], gen_shards=3),
    'C03': dict(driver='c03', trace='Trace_C03', shards=5, mc=[dict(module='MC_DataframeStore', thorough=dict(MaxLen='6'))],
                gen=[dict(module='Gen_C03', format='flat', depth=dict(quick=4, thorough=4))], gen_shards=3),
    'C12': dict(driver='c12', trace='Trace_C12', shards=4, mc=[dict(module='MC_Parallel', thorough=dict(MaxN='5'))],
                gen=[dict(module='Gen_Parallel', format='flat')], gen_shards=4),
    'C13': dict(driver='c13', trace='Trace_C13', shards=4, mc=[dict(module='MC_Memo', thorough=dict(MaxEvals='6'))],
                gen=[dict(module='Gen_C13', format='flat', depth=dict(quick=4, thorough=5))], gen_shards=4),
    'C04': dict(driver='c04', trace='Trace_C04', shards=4, mc=[dict(module='MC_Attributes', thorough=dict(MaxDecs='2'))],
                gen=[dict(module='Gen_Attributes', format='flat', depth=dict(quick=2, thorough=3))], gen_shards=4),
    'C05': dict(driver='c04', trace='Trace_C05', shards=4, mc=[dict(module='MC_Attributes', thorough=dict(MaxDecs='2'))],
                gen=[dict(module='Gen_Attributes', format='flat', depth=dict(quick=2, thorough=3))], gen_shards=4),
    'C15': dict(driver='c15', trace='Trace_C15', shards=4, mc=[dict(module='MC_Pipeline', thorough=dict(MaxArity='4'))],
                gen=[dict(module='Gen_Pipeline', format='flat')], gen_shards=3),
    'C16': dict(driver='c16', trace='Trace_C16', shards=6, mc=[dict(module='MC_Arith')],
                gen=[dict(module='Gen_Arith', format='flat')], gen_shards=2),
    'C17': dict(driver='c17', trace='Trace_C17', shards=6, mc=[dict(module='MC_Algebra')],
                gen=[dict(module='Gen_Algebra', format='flat')], gen_shards=2),
    'C18': dict(driver='c18', trace='Trace_C18', shards=6, mc=[dict(module='MC_Eigen')],
                gen=[dict(module='Gen_Eigen', format='flat')], gen_shards=2),
    'C14': dict(driver='c14', trace='Trace_C14', shards=4, mc=[dict(module='MC_Purity', thorough=dict(H='7'))],
                gen=[dict(module='Gen_Purity', format='flat', depth=dict(quick=3, thorough=4))], gen_shards=4),
    'C19': dict(driver='c19', trace='Trace_C19', shards=6, mc=[dict(module='MC_Stats')],
                gen=[dict(module='Gen_Stats', format='flat', env=dict(GEN_WHICH='moments'))], gen_shards=2),
    'C20': dict(driver='c20', trace='Trace_C20', shards=6, mc=[dict(module='MC_Stats')],
                gen=[dict(module='Gen_Stats', format='flat', env=dict(GEN_WHICH='orders'))], gen_shards=2),
    'C21': dict(driver='c21', trace='Trace_C21', shards=6, mc=[dict(module='MC_Stats')],
                gen=[dict(module='Gen_Stats', format='flat', env=dict(GEN_WHICH='bins'))], gen_shards=2),
    'C22': dict(driver='c22', trace='Trace_C22', shards=6, mc=[dict(module='MC_Geometry')],
                gen=[dict(module='Gen_Geometry', format='flat')], gen_shards=2),
    'C23': dict(driver='c23', trace='Trace_C23', shards=6, mc=[dict(module='MC_Equality')],
                gen=[dict(module='Gen_Equality', format='flat')], gen_shards=2),
    'C24': dict(driver='c24', trace='Trace_C24', shards=6, mc=[dict(module='MC_Views')],
                gen=[dict(module='Gen_Views', format='flat', depth=dict(quick=2, thorough=3))], gen_shards=4),
    'C25': dict(driver='c25', trace='Trace_C25', shards=6, mc=[dict(module='MC_Random')],
                gen=[dict(module='Gen_Random', format='flat', depth=dict(quick=3, thorough=4))], gen_shards=4),
    'C26': dict(driver='c26', trace='Trace_C26', shards=6, mc=[dict(module='MC_Render')],
                gen=[dict(module='Gen_Render', format='flat')], gen_shards=2),
    'C27': dict(driver='c27', trace='Trace_C27', shards=6, mc=[dict(module='MC_Failure', thorough=dict(N='8'))],
                gen=[dict(module='Gen_Failure', format='flat', depth=dict(quick=2, thorough=3))], gen_shards=2),
    'C28': dict(driver='c28', trace='Trace_C28', shards=4, flavours=['asan', 'tsan'], mc=[dict(module='MC_Overlap')],
                gen=[dict(module='Gen_Overlap', format='flat', depth=dict(quick=4, thorough=5))], gen_shards=2),
}

# Faulty machines: with these constants the models have to break their invariants
# (thorough tier), so an invariant that can no longer tell is noticed.
FAULTY = {
    'C13': [], 'C14': [('MC_Purity', 'Mode', m) for m in ('"Shared"', '"ByAddress"', '"InPlace"')],
    'C24': [('MC_Views', 'Refers', 'TRUE')], 'C25': [('MC_Random', 'Shared', 'TRUE')], 'C26': [('MC_Render', 'Stray', 'TRUE')],
    'C27': [('MC_Failure', 'Mode', m) for m in ('"Swallow"', '"Late"', '"Another"', '"Traces"')],
    'C28': [('MC_Overlap', 'Mode', m) for m in ('"Static"', '"ThreadLocal"', '"InPlace"')],
}
for _p, _l in FAULTY.items():
    CHECKS[_p]['mc_thorough'] = CHECKS[_p].get('mc_thorough', []) + [dict(module=m, consts={k: v}, breaks=True) for m, k, v in _l]
